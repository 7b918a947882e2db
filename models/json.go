package vsymmodels

import (
	"encoding/base64"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// encoding/json: a strict parser into a tree, stored by the kind of the target, and a
// writer by the kind of the value. Every trace is compared with the real package natively.

type jsonError struct{ msg string }

func (e *jsonError) Error() string { return "json: " + e.msg }

type jnode struct {
	kind   byte // n t f 0 s [ {
	text   string
	keys   []string
	kids   []*jnode
	lo, hi int
}

type jparser struct {
	b []byte
	i int
}

func (p *jparser) space() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\r' || p.b[p.i] == '\n') {
		p.i++
	}
}

func (p *jparser) word(w string) bool {
	if len(p.b)-p.i < len(w) {
		return false
	}
	for k := 0; k < len(w); k++ {
		if p.b[p.i+k] != w[k] {
			return false
		}
	}
	p.i += len(w)
	return true
}

func jdigit(c byte) bool { return '0' <= c && c <= '9' }

func (p *jparser) value() *jnode {
	p.space()
	if p.i >= len(p.b) {
		return nil
	}
	n := &jnode{lo: p.i}
	switch c := p.b[p.i]; {
	case c == '{':
		n.kind = c
		p.i++
		p.space()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.space()
			if p.i >= len(p.b) || p.b[p.i] != '"' {
				return nil
			}
			k, ok := p.str()
			if !ok {
				return nil
			}
			p.space()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil
			}
			p.i++
			v := p.value()
			if v == nil {
				return nil
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			p.space()
			if p.i >= len(p.b) {
				return nil
			}
			c := p.b[p.i]
			p.i++
			if c == '}' {
				break
			}
			if c != ',' {
				return nil
			}
		}
	case c == '[':
		n.kind = c
		p.i++
		p.space()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			break
		}
		for {
			v := p.value()
			if v == nil {
				return nil
			}
			n.kids = append(n.kids, v)
			p.space()
			if p.i >= len(p.b) {
				return nil
			}
			c := p.b[p.i]
			p.i++
			if c == ']' {
				break
			}
			if c != ',' {
				return nil
			}
		}
	case c == '"':
		n.kind = 's'
		s, ok := p.str()
		if !ok {
			return nil
		}
		n.text = s
	case c == 'n':
		n.kind = 'n'
		if !p.word("null") {
			return nil
		}
	case c == 't':
		n.kind = 't'
		if !p.word("true") {
			return nil
		}
	case c == 'f':
		n.kind = 'f'
		if !p.word("false") {
			return nil
		}
	default:
		n.kind = '0'
		if !p.number() {
			return nil
		}
		n.text = string(p.b[n.lo:p.i])
	}
	n.hi = p.i
	return n
}

func (p *jparser) number() bool {
	b := p.b
	i := p.i
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i >= len(b) || !jdigit(b[i]) {
		return false
	}
	if b[i] == '0' {
		i++
	} else {
		for i < len(b) && jdigit(b[i]) {
			i++
		}
	}
	if i < len(b) && b[i] == '.' {
		i++
		if i >= len(b) || !jdigit(b[i]) {
			return false
		}
		for i < len(b) && jdigit(b[i]) {
			i++
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if i >= len(b) || !jdigit(b[i]) {
			return false
		}
		for i < len(b) && jdigit(b[i]) {
			i++
		}
	}
	p.i = i
	return true
}

func (p *jparser) hex4() (rune, bool) {
	if len(p.b)-p.i < 4 {
		return 0, false
	}
	r := rune(0)
	for k := 0; k < 4; k++ {
		c := p.b[p.i+k]
		switch {
		case '0' <= c && c <= '9':
			c -= '0'
		case 'a' <= c && c <= 'f':
			c -= 'a' - 10
		case 'A' <= c && c <= 'F':
			c -= 'A' - 10
		default:
			return 0, false
		}
		r = r<<4 | rune(c)
	}
	p.i += 4
	return r, true
}

func (p *jparser) str() (string, bool) {
	p.i++
	var out []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n == 1 {
				out = append(out, 0xef, 0xbf, 0xbd)
			} else {
				out = append(out, p.b[p.i:p.i+n]...)
			}
			p.i += n
			continue
		}
		p.i++
		if c == '"' {
			return string(out), true
		}
		if c < ' ' {
			return "", false
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		if p.i >= len(p.b) {
			return "", false
		}
		c = p.b[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			out = append(out, c)
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'u':
			r, ok := p.hex4()
			if !ok {
				return "", false
			}
			if r < utf8.RuneSelf {
				out = append(out, byte(r))
				break
			}
			if utf16.IsSurrogate(r) {
				save := p.i
				if len(p.b)-p.i >= 6 && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
					p.i += 2
					r2, ok := p.hex4()
					if !ok {
						return "", false
					}
					if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
						out = utf8.AppendRune(out, d)
						break
					}
				}
				p.i = save
				r = utf8.RuneError
			}
			out = utf8.AppendRune(out, r)
		default:
			return "", false
		}
	}
	return "", false
}

func jparse(b []byte) (*jnode, error) {
	p := &jparser{b: b}
	n := p.value()
	if n != nil {
		p.space()
		if p.i == len(b) {
			return n, nil
		}
	}
	return nil, &jsonError{"syntax error"}
}

//model: encoding/json.Valid
func JSONValid(b []byte) bool {
	_, err := jparse(b)
	return err == nil
}

//model: encoding/json.Unmarshal
func JSONUnmarshal(b []byte, v any) error {
	n, err := jparse(b)
	if err != nil {
		return err
	}
	if v == nil {
		return &jsonError{"Unmarshal(nil)"}
	}
	return jassign(b, n, v)
}

func jtree(n *jnode) (any, error) {
	switch n.kind {
	case 'n':
		return nil, nil
	case 't':
		return true, nil
	case 'f':
		return false, nil
	case 's':
		return n.text, nil
	case '0':
		f, err := strconv.ParseFloat(n.text, 64)
		if err != nil {
			return nil, &jsonError{"number out of range"}
		}
		return f, nil
	case '[':
		out := make([]any, 0, len(n.kids))
		var first error
		for _, k := range n.kids {
			v, err := jtree(k)
			if err != nil && first == nil {
				first = err
			}
			out = append(out, v)
		}
		return out, first
	}
	m := map[string]any{}
	err := jmap(n, m)
	return m, err
}

func jmap(n *jnode, m map[string]any) error {
	var first error
	for i, k := range n.keys {
		v, err := jtree(n.kids[i])
		if err != nil && first == nil {
			first = err
		}
		m[k] = v
	}
	return first
}

func jmismatch(n *jnode) error {
	return &jsonError{"cannot unmarshal " + string(rune(n.kind))}
}

func jassign(b []byte, n *jnode, v any) error {
	switch p := v.(type) {
	case *any:
		x, err := jtree(n)
		*p = x
		return err
	case *map[string]any:
		if n.kind == 'n' {
			*p = nil
			return nil
		}
		if n.kind != '{' {
			return jmismatch(n)
		}
		if *p == nil {
			*p = map[string]any{}
		}
		return jmap(n, *p)
	case *[]any:
		if n.kind == 'n' {
			*p = nil
			return nil
		}
		if n.kind != '[' {
			return jmismatch(n)
		}
		x, err := jtree(n)
		*p = x.([]any)
		return err
	}
	if u, ok := v.(interface{ UnmarshalJSON([]byte) error }); ok {
		return u.UnmarshalJSON(append([]byte(nil), b[n.lo:n.hi]...))
	}
	kind, names, ptrs := Target(v)
	if kind == 0 {
		Unsupported("json.Unmarshal into " + TypeName(v))
	}
	if kind == 11 {
		return &jsonError{"Unmarshal(nil or non-pointer)"}
	}
	if n.kind == 'n' && kind <= 6 || n.kind == 'n' && kind == 9 {
		return nil
	}
	switch kind {
	case 1:
		if n.kind != 't' && n.kind != 'f' {
			return jmismatch(n)
		}
		Assign(v, n.kind == 't')
	case 2:
		if n.kind != '0' {
			return jmismatch(n)
		}
		bits := Bits(v)
		x, err := strconv.ParseInt(n.text, 10, bits)
		if err != nil {
			return jmismatch(n)
		}
		Assign(v, x)
	case 3:
		if n.kind != '0' {
			return jmismatch(n)
		}
		x, err := strconv.ParseUint(n.text, 10, Bits(v))
		if err != nil {
			return jmismatch(n)
		}
		Assign(v, x)
	case 4, 5:
		if n.kind != '0' {
			return jmismatch(n)
		}
		x, err := strconv.ParseFloat(n.text, Bits(v))
		if err != nil {
			return jmismatch(n)
		}
		Assign(v, x)
	case 6:
		if n.kind != 's' {
			return jmismatch(n)
		}
		Assign(v, n.text)
	case 7:
		if n.kind == 'n' {
			Unsupported("json null into a slice")
		}
		if n.kind != '[' {
			return jmismatch(n)
		}
		var first error
		for i, e := range Grow(v, len(n.kids)) {
			if err := jassign(b, n.kids[i], e); err != nil && first == nil {
				first = err
			}
		}
		return first
	case 9:
		if n.kind != '{' {
			return jmismatch(n)
		}
		var first error
		for i, k := range n.keys {
			at := -1
			for j, name := range names {
				if len(name) > 0 && name[0] == '?' {
					name = name[1:]
				}
				if name == k {
					at = j
					break
				}
				if at < 0 && jfold(name) == jfold(k) {
					at = j
				}
			}
			if at >= 0 {
				if err := jassign(b, n.kids[i], ptrs[at]); err != nil && first == nil {
					first = err
				}
			}
		}
		return first
	default:
		Unsupported("json.Unmarshal into " + TypeName(v))
	}
	return nil
}

func jfold(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		out = append(out, c)
	}
	return string(out)
}

const jhex = "0123456789abcdef"

func jquote(s string) []byte {
	out := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s[i:])
			switch {
			case r == utf8.RuneError && n == 1:
				out = append(out, '\\', 'u', 'f', 'f', 'f', 'd')
			case r == 0x2028 || r == 0x2029:
				out = append(out, '\\', 'u', '2', '0', '2', jhex[r&15])
			default:
				out = append(out, s[i:i+n]...)
			}
			i += n
			continue
		}
		i++
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\b':
			out = append(out, '\\', 'b')
		case c == '\f':
			out = append(out, '\\', 'f')
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c < ' ' || c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', jhex[c>>4], jhex[c&15])
		default:
			out = append(out, c)
		}
	}
	return append(out, '"')
}

// jcompact removes space outside texts and escapes HTML inside them.
func jcompact(b []byte) []byte {
	var out []byte
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if !in {
			if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
				continue
			}
			in = c == '"'
			out = append(out, c)
			continue
		}
		switch {
		case c == '\\':
			out = append(out, c, b[i+1])
			i++
		case c == '"':
			in = false
			out = append(out, c)
		case c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', jhex[c>>4], jhex[c&15])
		case c == 0xe2 && b[i+1] == 0x80 && b[i+2]&^1 == 0xa8:
			out = append(out, '\\', 'u', '2', '0', '2', jhex[b[i+2]&15])
			i += 2
		default:
			out = append(out, c)
		}
	}
	return out
}

func jfloat(f float64, bits int) ([]byte, error) {
	if Symbolic(f) && f == 0 {
		if 1/f < 0 {
			return []byte("-0"), nil
		}
		return []byte("0"), nil
	}
	if n, ok := IntOf(f); ok {
		return []byte(strconv.FormatInt(n, 10)), nil
	}
	if Symbolic(f) {
		Unsupported("json of a symbolic float")
	}
	if f != f || f > 1.7976931348623157e308 || f < -1.7976931348623157e308 {
		return nil, &jsonError{"unsupported value"}
	}
	abs := f
	if abs < 0 {
		abs = -abs
	}
	c := byte('f')
	if abs != 0 && (bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21)) {
		c = 'e'
	}
	s := []byte(strconv.FormatFloat(f, c, -1, bits))
	if c == 'e' {
		if n := len(s); n >= 4 && s[n-4] == 'e' && s[n-3] == '-' && s[n-2] == '0' {
			s[n-2] = s[n-1]
			s = s[:n-1]
		}
	}
	return s, nil
}

//model: encoding/json.Marshal
func JSONMarshal(v any) ([]byte, error) { return jencode(v) }

func jencode(v any) ([]byte, error) {
	if v == nil {
		return []byte("null"), nil
	}
	kind, names, vals := Parts(v)
	if kind == 11 {
		return []byte("null"), nil
	}
	if m, ok := v.(interface{ MarshalJSON() ([]byte, error) }); ok {
		b, err := m.MarshalJSON()
		if err != nil {
			return nil, err
		}
		if _, err := jparse(b); err != nil {
			return nil, err
		}
		return jcompact(b), nil
	}
	if m, ok := v.(interface{ MarshalText() ([]byte, error) }); ok {
		b, err := m.MarshalText()
		if err != nil {
			return nil, err
		}
		return jquote(string(b)), nil
	}
	if b, ok := v.([]byte); ok {
		return jquote(base64.StdEncoding.EncodeToString(b)), nil
	}
	switch kind {
	case 1:
		if vals[0].(bool) {
			return []byte("true"), nil
		}
		return []byte("false"), nil
	case 2:
		return []byte(strconv.FormatInt(vals[0].(int64), 10)), nil
	case 3:
		return []byte(strconv.FormatUint(vals[0].(uint64), 10)), nil
	case 4:
		return jfloat(vals[0].(float64), 64)
	case 5:
		return jfloat(vals[0].(float64), 32)
	case 6:
		return jquote(vals[0].(string)), nil
	case 7:
		out := []byte{'['}
		for i, x := range vals {
			if i > 0 {
				out = append(out, ',')
			}
			b, err := jencode(x)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
		}
		return append(out, ']'), nil
	case 8:
		for i := range names {
			for j := i; j > 0 && names[j] < names[j-1]; j-- {
				names[j], names[j-1] = names[j-1], names[j]
				vals[j], vals[j-1] = vals[j-1], vals[j]
			}
		}
		fallthrough
	case 9:
		out := []byte{'{'}
		for i, x := range vals {
			name := names[i]
			if kind == 9 && name[0] == '?' {
				name = name[1:]
				if jempty(x) {
					continue
				}
			}
			if len(out) > 1 {
				out = append(out, ',')
			}
			out = append(append(out, jquote(name)...), ':')
			b, err := jencode(x)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
		}
		return append(out, '}'), nil
	case 10:
		return jencode(vals[0])
	}
	Unsupported("json.Marshal of " + TypeName(v))
	return nil, nil
}

func jempty(v any) bool {
	if v == nil {
		return true
	}
	kind, _, vals := Parts(v)
	switch kind {
	case 1:
		return !vals[0].(bool)
	case 2:
		return vals[0].(int64) == 0
	case 3:
		return vals[0].(uint64) == 0
	case 4, 5:
		return vals[0].(float64) == 0
	case 6:
		return vals[0].(string) == ""
	case 7, 8:
		return len(vals) == 0
	}
	return kind == 11
}
