# ---- keys -------------------------------------------------------------------------------
# A PEM text is loaded exactly when it decodes to one block of the right type that
# holds an RSA key, and then the key returned is that key.
macro pubok(d) = pemok(d) && pemtype(d) == "PUBLIC KEY" && pkixok(pembytes(d)) && isrsapub(pkix(pembytes(d)));
macro privok(d) = pemok(d) && pemtype(d) == "RSA PRIVATE KEY" && pkcs1ok(pembytes(d));
func crypto.LoadPublicKeyFromData(data) for C30 {
  ensures accepts: ret1 == nil <==> pubok(bytes(data));
  ensures key: ret1 == nil ==> ret0 == rsapub(pkix(pembytes(bytes(data))));
  ensures none: ret1 != nil ==> ret0 == nil;
}
func crypto.LoadPublicKeyFromText(data) for C30 {
  ensures accepts: ret1 == nil <==> pubok(data);
  ensures key: ret1 == nil ==> ret0 == rsapub(pkix(pembytes(data)));
  ensures none: ret1 != nil ==> ret0 == nil;
}
func crypto.LoadPublicKeyFromFile(path) for C30 {
  ensures accepts: ret1 == nil <==> fileok(path) && pubok(filedata(path));
  ensures key: ret1 == nil ==> ret0 == rsapub(pkix(pembytes(filedata(path))));
  ensures none: ret1 != nil ==> ret0 == nil;
}
func crypto.LoadPrivateKeyFromData(data) for C30 {
  ensures accepts: ret1 == nil <==> privok(bytes(data));
  ensures key: ret1 == nil ==> ret0 == pkcs1(pembytes(bytes(data)));
  ensures none: ret1 != nil ==> ret0 == nil;
}
func crypto.LoadPrivateKeyFromText(data) for C30 {
  ensures accepts: ret1 == nil <==> privok(data);
  ensures key: ret1 == nil ==> ret0 == pkcs1(pembytes(data));
  ensures none: ret1 != nil ==> ret0 == nil;
}
func crypto.LoadPrivateKeyFromFile(path) for C30 {
  ensures accepts: ret1 == nil <==> fileok(path) && privok(filedata(path));
  ensures key: ret1 == nil ==> ret0 == pkcs1(pembytes(filedata(path)));
  ensures none: ret1 != nil ==> ret0 == nil;
}
