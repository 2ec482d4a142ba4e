// Package jwk is a minimal stand-in for github.com/lestrrat/go-jwx/jwk, which is
// not available in the sandbox: just the API that goidc uses.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"math/big"
)

const KeyIDKey = "kid"

type Key interface {
	Kid() string
	Set(key string, value interface{}) error
}

type Set struct {
	Keys []Key `json:"keys"`
}

type RSAPublicKey struct {
	KeyType string `json:"kty"`
	KeyID   string `json:"kid,omitempty"`
	N       string `json:"n"`
	E       string `json:"e"`
}

func (k *RSAPublicKey) Kid() string { return k.KeyID }

func (k *RSAPublicKey) Set(key string, value interface{}) error {
	s, ok := value.(string)
	if !ok || key != KeyIDKey {
		return errors.New("invalid key/value")
	}
	k.KeyID = s
	return nil
}

func (k *RSAPublicKey) Materialize() (interface{}, error) {
	n, err := base64.RawURLEncoding.DecodeString(k.N)
	if err != nil {
		return nil, err
	}
	e, err := base64.RawURLEncoding.DecodeString(k.E)
	if err != nil {
		return nil, err
	}
	return &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}, nil
}

type otherKey struct{ KeyID string }

func (k *otherKey) Kid() string { return k.KeyID }

func (k *otherKey) Set(string, interface{}) error { return errors.New("unsupported") }

func New(key interface{}) (Key, error) {
	pk, ok := key.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("unsupported key")
	}
	return &RSAPublicKey{
		KeyType: "RSA",
		N:       base64.RawURLEncoding.EncodeToString(pk.N.Bytes()),
		E:       base64.RawURLEncoding.EncodeToString(big.NewInt(int64(pk.E)).Bytes()),
	}, nil
}

func ParseString(s string) (*Set, error) {
	var raw struct {
		Keys []json.RawMessage `json:"keys"`
	}
	if err := json.Unmarshal([]byte(s), &raw); err != nil {
		return nil, err
	}
	set := &Set{}
	for _, r := range raw.Keys {
		k := &RSAPublicKey{}
		if err := json.Unmarshal(r, k); err != nil {
			return nil, err
		}
		if k.KeyType == "RSA" {
			set.Keys = append(set.Keys, k)
		} else {
			set.Keys = append(set.Keys, &otherKey{k.KeyID})
		}
	}
	return set, nil
}

func (s *Set) LookupKeyID(kid string) []Key {
	var r []Key
	for _, k := range s.Keys {
		if k.Kid() == kid {
			r = append(r, k)
		}
	}
	return r
}
