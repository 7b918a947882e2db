package vsymmodels

import (
	"errors"
	"io"
	"strconv"
)

type wrapError struct {
	format string
	args   []any
	err    error
}

func (w *wrapError) Error() string { return sprintf(w.format, w.args) }
func (w *wrapError) Unwrap() error { return w.err }

//model: fmt.Errorf
func Errorf(format string, args ...any) error {
	w := &wrapError{format: format, args: args}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		for i < len(format)-1 && (format[i] == '+' || format[i] == '#' || format[i] == '.' || format[i] == '-' || format[i] == ' ' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				w.err = e
			}
		}
		n++
	}
	return w
}

//model: fmt.Sprintf
func Sprintf(format string, args ...any) string { return sprintf(format, args) }

//model: fmt.Fprintf
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(sprintf(format, args)))
}

//model: fmt.Fprint
func Fprint(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(Sprint(args...)))
}

//model: fmt.Fprintln
func Fprintln(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

//model: fmt.Sprint
func Sprint(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := a.(string)
			_, s2 := args[i-1].(string)
			if !s1 && !s2 {
				out += " "
			}
		}
		out += verb('v', -1, -1, "", a)
	}
	return out
}

//model: fmt.Sprintln
func Sprintln(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += verb('v', -1, -1, "", a)
	}
	return out + "\n"
}

//model: fmt.Printf
func Printf(format string, args ...any) (int, error) { return len(sprintf(format, args)), nil }

//model: fmt.Println
func Println(args ...any) (int, error) { return 0, nil }

func sprintf(format string, args []any) string {
	out := ""
	n := 0
	i := 0
	for i < len(format) {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out += format[i:j]
			i = j
			continue
		}
		i++
		if i >= len(format) {
			return out + "%!(NOVERB)"
		}
		flags := ""
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '0') {
			flags += string(rune(format[i]))
			i++
		}
		width, prec := -1, -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			return out + "%!(NOVERB)"
		}
		c := format[i]
		i++
		if c == '%' {
			out += "%"
			continue
		}
		if n >= len(args) {
			out += "%!" + string(rune(c)) + "(MISSING)"
			continue
		}
		out += verb(c, width, prec, flags, args[n])
		n++
	}
	if n < len(args) {
		Unsupported("fmt: extra arguments")
	}
	return out
}

func has(flags string, c byte) bool {
	for i := 0; i < len(flags); i++ {
		if flags[i] == c {
			return true
		}
	}
	return false
}

func pad(s string, width int, flags string) string {
	sign := ""
	if has(flags, '0') && !has(flags, '-') && len(s) < width && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		sign, s, width = s[:1], s[1:], width-1
	}
	for len(s) < width {
		if has(flags, '-') {
			s = s + " "
		} else if has(flags, '0') {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return sign + s
}

// plus puts a sign in front of a number if asked to.
func plus(s, flags string) string {
	if has(flags, ' ') {
		Unsupported("fmt flag space")
	}
	if has(flags, '+') && s[0] != '-' && s[0] != '+' {
		return "+" + s
	}
	return s
}

func hexStr(s string) string {
	const d = "0123456789abcdef"
	out := make([]byte, 0, len(s)*2)
	for i := 0; i < len(s); i++ {
		out = append(out, d[s[i]>>4], d[s[i]&15])
	}
	return string(out)
}

func fmtFloat(f float64, c byte, prec int) string {
	if Symbolic(f) {
		Unsupported("formatting a symbolic float")
	}
	if c == 'v' {
		c = 'g'
	}
	s := strconv.FormatFloat(f, c, prec, 64)
	if c == 'g' && prec < 0 {
		// %v uses %e only for exponents < -4 || >= 21
		s = strconv.FormatFloat(f, 'g', -1, 64)
		e := -1
		for i := 0; i < len(s); i++ {
			if s[i] == 'e' {
				e = i
			}
		}
		if e >= 0 {
			x, err := strconv.Atoi(s[e+1:])
			if err == nil && x >= -4 && x < 21 {
				s = strconv.FormatFloat(f, 'f', -1, 64)
			}
		}
	}
	if s == "Inf" {
		return "+Inf"
	}
	return s
}

func verb(c byte, width, prec int, flags string, a any) string {
	if a == nil {
		if c == 'v' {
			return "<nil>"
		}
		return "%!" + string(rune(c)) + "(<nil>)"
	}
	if c == 'T' {
		return TypeName(a)
	}
	if c == 'v' || c == 's' || c == 'q' || c == 'w' {
		txt := ""
		ok := false
		switch x := a.(type) {
		case error:
			txt, ok = x.Error(), true
		case interface{ String() string }:
			txt, ok = x.String(), true
		}
		if ok {
			if c == 'q' {
				return strconv.Quote(txt)
			}
			return pad(txt, width, flags)
		}
	}
	if bs, ok := a.([]byte); ok {
		switch c {
		case 'x':
			return hexStr(string(bs))
		case 's':
			return string(bs)
		}
		Unsupported("fmt of []byte")
	}
	if c == 'v' && has(flags, '+') {
		flags = ""
	}
	k, b, i, f, s := Scalar(a)
	switch k {
	case 1:
		if c == 't' || c == 'v' {
			if b {
				return "true"
			}
			return "false"
		}
	case 2, 3:
		switch c {
		case 'd', 'v':
			if k == 2 {
				return pad(plus(strconv.FormatInt(int64(i), 10), flags), width, flags)
			}
			return pad(plus(strconv.FormatUint(i, 10), flags), width, flags)
		case 'x', 'X':
			t, sign := "", ""
			if k == 2 && int64(i) < 0 {
				sign, i = "-", -i
			}
			for {
				if c == 'x' {
					t = string("0123456789abcdef"[i&15]) + t
				} else {
					t = string("0123456789ABCDEF"[i&15]) + t
				}
				i >>= 4
				if i == 0 {
					break
				}
			}
			if has(flags, '#') {
				sign += "0" + string(rune(c))
			}
			return pad(plus(sign+t, flags), width, flags)
		case 'c':
			return string(rune(i))
		}
	case 4:
		switch c {
		case 'v', 'g', 'e', 'f':
			if c == 'f' && prec < 0 {
				prec = 6
			}
			return pad(plus(fmtFloat(f, c, prec), flags), width, flags)
		}
	case 5:
		switch c {
		case 's', 'v':
			return pad(s, width, flags)
		case 'q':
			return strconv.Quote(s)
		case 'x':
			return hexStr(s)
		}
	}
	if kind, _, vals := Parts(a); kind == 7 && !has(flags, '#') {
		out := "["
		for i, v := range vals {
			if i > 0 {
				out += " "
			}
			out += verb(c, width, prec, flags, v)
		}
		return out + "]"
	}
	if c == 'p' {
		return "0xc000000000"
	}
	Unsupported("fmt verb %" + string(rune(c)) + " of " + TypeName(a))
	return ""
}

//model: errors.Is
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				if ErrorsIs(y, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

var _ = errors.New
