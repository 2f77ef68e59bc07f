package ref

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
	"unicode/utf8"
)

// PathMatch is shell-style matching, segment by segment.
func PathMatch(pattern, path string) bool {
	ps, ts := strings.Split(pattern, "/"), strings.Split(path, "/")
	if len(ps) != len(ts) {
		return false
	}
	for i := range ps {
		if !globWellFormed(ps[i]) || !glob(ps[i], ts[i]) {
			return false
		}
	}
	return true
}

// globWellFormed tells whether every bracket expression is closed etc.
func globWellFormed(p string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '\\':
			if len(p) < 2 {
				return false
			}
			_, n := utf8.DecodeRuneInString(p[1:])
			p = p[1+n:]
		case '[':
			_, rest, ok := class(p, 'x')
			if !ok {
				return false
			}
			p = rest
		default:
			_, n := utf8.DecodeRuneInString(p)
			p = p[n:]
		}
	}
	return true
}

// class parses a bracket expression at the start of p and tells whether c is in it.
func class(p string, c rune) (in bool, rest string, ok bool) {
	p = p[1:]
	neg := false
	if strings.HasPrefix(p, "^") {
		neg = true
		p = p[1:]
	}
	first := true
	next := func() (rune, bool) {
		if p == "" {
			return 0, false
		}
		if p[0] == '-' || p[0] == ']' {
			return 0, false
		}
		if p[0] == '\\' {
			p = p[1:]
			if p == "" {
				return 0, false
			}
		}
		r, n := utf8.DecodeRuneInString(p)
		if r == utf8.RuneError && n == 1 {
			return 0, false
		}
		p = p[n:]
		return r, p != ""
	}
	for {
		if p == "" {
			return false, "", false
		}
		if p[0] == ']' && !first {
			p = p[1:]
			break
		}
		lo, ok := next()
		if !ok {
			return false, "", false
		}
		hi := lo
		if p[0] == '-' {
			p = p[1:]
			hi, ok = next()
			if !ok {
				return false, "", false
			}
		}
		if lo <= c && c <= hi {
			in = true
		}
		first = false
	}
	return in != neg, p, true
}

// glob matches one segment; p is well formed.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for i := 0; ; {
			if glob(p[1:], s[i:]) {
				return true
			}
			if i >= len(s) {
				return false
			}
			_, n := utf8.DecodeRuneInString(s[i:])
			i += n
		}
	case '?':
		if s == "" {
			return false
		}
		_, n := utf8.DecodeRuneInString(s)
		return glob(p[1:], s[n:])
	case '[':
		if s == "" {
			return false
		}
		c, n := utf8.DecodeRuneInString(s)
		in, rest, ok := class(p, c)
		return ok && in && glob(rest, s[n:])
	case '\\':
		_, n := utf8.DecodeRuneInString(p[1:])
		return strings.HasPrefix(s, p[1:1+n]) && glob(p[1+n:], s[n:])
	}
	_, n := utf8.DecodeRuneInString(p)
	return strings.HasPrefix(s, p[:n]) && glob(p[n:], s[n:])
}

// Matches tells whether a delegated role applies to a target path.
func (r RoleInfo) Matches(path string) bool {
	if len(r.Paths) > 0 {
		for _, p := range r.Paths {
			if PathMatch(p, path) {
				return true
			}
		}
		return false
	}
	h := sha256.Sum256([]byte(path))
	hx := hex.EncodeToString(h[:])
	for _, p := range r.Prefixes {
		if strings.HasPrefix(hx, p) {
			return true
		}
	}
	return false
}

func (s *Succinct) suffixLen() int {
	n := 1
	for max := (uint64(1) << uint(s.BitLength)) - 1; max >= 16; max >>= 4 {
		n++
	}
	return n
}

// Bin is the bin role responsible for a target path.
func (s *Succinct) Bin(path string) string {
	h := sha256.Sum256([]byte(path))
	var v uint64
	for i := int64(0); i < s.BitLength; i++ {
		v = v<<1 | uint64(h[i/8]>>(7-uint(i%8))&1)
	}
	return s.Name(v)
}

// Name is the name of bin v.
func (s *Succinct) Name(v uint64) string {
	hx := fmt.Sprintf("%x", v)
	return s.Prefix + "-" + strings.Repeat("0", s.suffixLen()-len(hx)) + hx
}

// IsBin tells whether name is one of the enumerated bins.
func (s *Succinct) IsBin(name string) bool {
	if !strings.HasPrefix(name, s.Prefix+"-") {
		return false
	}
	suf := name[len(s.Prefix)+1:]
	if len(suf) != s.suffixLen() {
		return false
	}
	var v uint64
	for _, c := range []byte(suf) {
		switch {
		case c >= '0' && c <= '9':
			v = v<<4 | uint64(c-'0')
		case c >= 'a' && c <= 'f':
			v = v<<4 | uint64(c-'a'+10)
		default:
			return false
		}
	}
	return v < uint64(1)<<uint(s.BitLength)
}

// RolesFor lists, in order, the delegated roles responsible for path, cut
// after the first terminating one.
func (v *View) RolesFor(path string) (names []string, terminated bool) {
	if v.Deleg == nil {
		return nil, false
	}
	if v.Deleg.HasRoles {
		for _, r := range v.Deleg.Roles {
			if r.Matches(path) {
				names = append(names, r.Name)
				if r.Terminating {
					return names, true
				}
			}
		}
		return names, false
	}
	if v.Deleg.Succinct != nil {
		return []string{v.Deleg.Succinct.Bin(path)}, true
	}
	return nil, false
}
