package pgutil

import (
	"fmt"
	"strings"
	"testing"
)

// gvReadLiteral reads one PostgreSQL E'...' literal and returns its value and
// whether it is exactly one closed literal.
func gvReadLiteral(s string) (string, error) {
	s = strings.TrimLeft(s, " ")
	if !strings.HasPrefix(s, "E'") && !strings.HasPrefix(s, "e'") {
		if !strings.HasPrefix(s, "'") {
			return "", fmt.Errorf("not a literal")
		}
		body := s[1:]
		var b strings.Builder
		for i := 0; i < len(body); i++ {
			if body[i] == '\'' {
				if i+1 < len(body) && body[i+1] == '\'' {
					i++
				} else if i == len(body)-1 {
					return b.String(), nil
				} else {
					return "", fmt.Errorf("closed early at %d", i)
				}
			}
			b.WriteByte(body[i])
		}
		return "", fmt.Errorf("not closed")
	}
	body := s[2:]
	var b strings.Builder
	for i := 0; i < len(body); i++ {
		switch c := body[i]; c {
		case '\'':
			if i+1 < len(body) && body[i+1] == '\'' {
				b.WriteByte('\'')
				i++
				continue
			}
			if i == len(body)-1 {
				return b.String(), nil
			}
			return "", fmt.Errorf("closed early at %d", i)
		case '\\':
			i++
			if i >= len(body) {
				return "", fmt.Errorf("not closed")
			}
			switch e := body[i]; {
			case e == 'b':
				b.WriteByte('\b')
			case e == 'f':
				b.WriteByte('\f')
			case e == 'n':
				b.WriteByte('\n')
			case e == 'r':
				b.WriteByte('\r')
			case e == 't':
				b.WriteByte('\t')
			case e >= '0' && e <= '7':
				v, n := 0, 0
				for n < 3 && i < len(body) && body[i] >= '0' && body[i] <= '7' {
					v = v*8 + int(body[i]-'0')
					i++
					n++
				}
				i--
				b.WriteByte(byte(v))
			case e == 'x':
				v, n := 0, 0
				for n < 2 && i+1 < len(body) && strings.IndexByte("0123456789abcdefABCDEF", body[i+1]) >= 0 {
					var d int
					fmt.Sscanf(body[i+1:i+2], "%x", &d)
					v = v*16 + d
					i++
					n++
				}
				if n == 0 {
					b.WriteByte('x')
				} else {
					b.WriteByte(byte(v))
				}
			default:
				b.WriteByte(e)
			}
		default:
			b.WriteByte(c)
		}
	}
	return "", fmt.Errorf("not closed")
}

func TestGovc_C07(t *testing.T) {
	r := gvStart(t)
	defer r.done()
	var all []string
	for i := 0; i < 256; i++ {
		for _, q := range []string{"", "'", "\\", "x", "\\'", "1"} {
			all = append(all, string([]byte{byte(i)})+q, q+string([]byte{byte(i)}))
		}
	}
	all = append(all, r.texts(2000)...)
	for n := 1; n < 6; n++ {
		all = append(all, strings.Repeat("\\", n), strings.Repeat("'", n), strings.Repeat("a", 5000)+strings.Repeat("\\'", n))
	}
	for _, s := range all {
		r.try("Quote", fmt.Sprintf("%q", s), func() string {
			q := Quote(s)
			got, err := gvReadLiteral(q)
			if err != nil {
				return fmt.Sprintf("%q: %v", q, err)
			}
			if got != s {
				return fmt.Sprintf("%q reads back as %q", q, got)
			}
			return ""
		})
	}
}
