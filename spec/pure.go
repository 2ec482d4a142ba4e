package spec

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"html"
	"net/url"
	"sort"
	"strconv"
	"strings"
)

// Pure are the concrete meanings of the pure string functions of the logic.
// The verifier folds them on literals; the replay harness computes with them.
// Arguments and results are string, int64 or bool.
var Pure = map[string]func(a []any) any{
	"slen":      func(a []any) any { return int64(len(a[0].(string))) },
	"lower":     func(a []any) any { return strings.ToLower(a[0].(string)) },
	"upper":     func(a []any) any { return strings.ToUpper(a[0].(string)) },
	"trimspace": func(a []any) any { return strings.TrimSpace(a[0].(string)) },
	"hasprefix": func(a []any) any { return strings.HasPrefix(a[0].(string), a[1].(string)) },
	"hassuffix": func(a []any) any { return strings.HasSuffix(a[0].(string), a[1].(string)) },
	"contains":  func(a []any) any { return strings.Contains(a[0].(string), a[1].(string)) },
	"equalfold": func(a []any) any { return strings.EqualFold(a[0].(string), a[1].(string)) },
	"quote":     func(a []any) any { return strconv.Quote(a[0].(string)) },
	"itoa":      func(a []any) any { return strconv.FormatInt(a[0].(int64), 10) },
	"atoiok": func(a []any) any {
		_, err := strconv.Atoi(a[0].(string))
		return err == nil
	},
	"atoi": func(a []any) any {
		n, _ := strconv.Atoi(a[0].(string))
		return int64(n)
	},
	"qescape": func(a []any) any { return url.QueryEscape(a[0].(string)) },
	"qunescape": func(a []any) any {
		s, _ := url.QueryUnescape(a[0].(string))
		return s
	},
	"qunescapeok": func(a []any) any {
		_, err := url.QueryUnescape(a[0].(string))
		return err == nil
	},
	"htmlesc": func(a []any) any { return html.EscapeString(a[0].(string)) },
	"b64":     func(a []any) any { return B64(a[0].(string)).EncodeToString([]byte(a[1].(string))) },
	"sha256": func(a []any) any {
		h := sha256.Sum256([]byte(a[0].(string)))
		return string(h[:])
	},
	"sha384": func(a []any) any {
		h := sha512.Sum384([]byte(a[0].(string)))
		return string(h[:])
	},
	"sha512": func(a []any) any {
		h := sha512.Sum512([]byte(a[0].(string)))
		return string(h[:])
	},
	"substr": func(a []any) any {
		s, i, j := a[0].(string), a[1].(int64), a[2].(int64)
		if i < 0 || j > int64(len(s)) || i > j {
			return ""
		}
		return s[i:j]
	},
}

// B64 names the four standard base64 alphabets.
func B64(kind string) *base64.Encoding {
	switch kind {
	case "url":
		return base64.URLEncoding
	case "rawurl":
		return base64.RawURLEncoding
	case "raw":
		return base64.RawStdEncoding
	}
	return base64.StdEncoding
}

// Toks splits a space-delimited list.
func Toks(s string) []string { return strings.Split(s, " ") }

// InTok is membership in a space-delimited list.
func InTok(s, t string) bool {
	for _, x := range Toks(s) {
		if x == t {
			return true
		}
	}
	return false
}

// RemoveTok removes every occurrence of t, keeping the order of the rest.
func RemoveTok(s, t string) string {
	var r []string
	for _, x := range Toks(s) {
		if x != t {
			r = append(r, x)
		}
	}
	return strings.Join(r, " ")
}

// SortTok sorts the list.
func SortTok(s string) string {
	l := append([]string{}, Toks(s)...)
	sort.Strings(l)
	return strings.Join(l, " ")
}
