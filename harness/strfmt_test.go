package strfmt

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
)

// gvLetters: letters and digits in order, lower-cased.
func gvLetters(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			b.WriteRune(unicode.ToLower(r))
		}
	}
	return b.String()
}

func TestGovc_C13(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	alpha := []string{"a", "z", "A", "B", "Z", "0", "9", "_", " ", "-", ".", "é", "É", "世", "ID", "$", "@", "[", "`", "{", "/", ":", "\xff", "\t"}
	prev := map[string]string{}
	check := func(s string) {
		for n, f := range map[string]func(string) string{"ToSnakeCase": ToSnakeCase, "ToCamelCase": ToCamelCase, "ToPascalCase": ToPascalCase} {
			r.try(n, fmt.Sprintf("%q", s), func() string {
				o := f(s)
				if a, b := gvLetters(o), gvLetters(s); a != b {
					return fmt.Sprintf("%q has letters and digits %q, want %q", o, a, b)
				}
				if n == "ToSnakeCase" && strings.ContainsFunc(o, func(r rune) bool { return r >= 'A' && r <= 'Z' }) {
					return fmt.Sprintf("%q has an upper-case letter", o)
				}
				if p, ok := prev[n+s]; ok && p != o {
					return fmt.Sprintf("%q, earlier %q", o, p)
				}
				if len(prev) < 1<<17 {
					prev[n+s] = o
				}
				return ""
			})
		}
	}
	var all func(p string, k int)
	all = func(p string, k int) {
		check(p)
		if k > 0 {
			for _, a := range alpha {
				all(p+a, k-1)
			}
		}
	}
	all("", 3)
	words := []string{"ID", "id", "Id", "XMLHTTP", "JSON", "user", "Name", "2", "42", "URL", "_", "__", " ", "-", ".", "Été", "x", "Y", "iOS", "a1B2", "世界"}
	for i := 0; i < 20000*r.deep; i++ {
		var b strings.Builder
		for k := r.rng.Intn(r.size(7)); k >= 0; k-- {
			if r.rng.Intn(2) == 0 {
				b.WriteString(words[r.rng.Intn(len(words))])
			} else {
				b.WriteString(alpha[r.rng.Intn(len(alpha))])
			}
		}
		check(b.String())
	}
	for _, s := range r.strs {
		check(s)
	}
	for i, s := range []string{"ID", "id", "UserID", "XMLHTTPRequest", "a"} { // the same names again
		_ = i
		check(s)
	}
}
