// Package ref is an independent model of what TUF metadata mean. It shares no
// code with the repository under test and is used as the oracle by every check.
package ref

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

// Canon encodes a generic JSON value (map[string]any, []any, string, bool,
// nil, json.Number, int, int64) in OLPC canonical form.
func Canon(v any) []byte {
	var b strings.Builder
	canon(&b, v)
	return []byte(b.String())
}

func canon(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case string:
		b.WriteByte('"')
		b.WriteString(strings.ReplaceAll(strings.ReplaceAll(x, `\`, `\\`), `"`, `\"`))
		b.WriteByte('"')
	case json.Number:
		b.WriteString(x.String())
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case []string:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, k)
			b.WriteByte(':')
			canon(b, x[k])
		}
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("ref.Canon: %T", v))
	}
}

// ParseJSON decodes exactly one JSON value, keeping numbers exact.
func ParseJSON(data []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, errors.New("trailing data")
	}
	return v, nil
}

// Clone deep-copies a generic JSON value.
func Clone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = Clone(e)
		}
		return m
	case []any:
		s := make([]any, len(x))
		for i, e := range x {
			s[i] = Clone(e)
		}
		return s
	case []string:
		s := make([]any, len(x))
		for i, e := range x {
			s[i] = e
		}
		return s
	default:
		return v
	}
}

// Same reports whether two generic JSON values have the same content.
func Same(a, b any) bool { return bytes.Equal(Canon(a), Canon(b)) }

// SameBytes reports whether two JSON texts have the same content.
func SameBytes(a, b []byte) (bool, error) {
	x, err := ParseJSON(a)
	if err != nil {
		return false, err
	}
	y, err := ParseJSON(b)
	if err != nil {
		return false, err
	}
	return Same(x, y), nil
}

// Diff returns a short description of the first difference between two values.
func Diff(path string, a, b any) string {
	if Same(a, b) {
		return ""
	}
	am, ok1 := a.(map[string]any)
	bm, ok2 := b.(map[string]any)
	if ok1 && ok2 {
		ks := map[string]bool{}
		for k := range am {
			ks[k] = true
		}
		for k := range bm {
			ks[k] = true
		}
		names := []string{}
		for k := range ks {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			x, in1 := am[k]
			y, in2 := bm[k]
			if in1 != in2 {
				return fmt.Sprintf("%s/%s: present %v vs %v", path, k, in1, in2)
			}
			if d := Diff(path+"/"+k, x, y); d != "" {
				return d
			}
		}
	}
	al, ok1 := a.([]any)
	bl, ok2 := b.([]any)
	if ok1 && ok2 && len(al) == len(bl) {
		for i := range al {
			if d := Diff(fmt.Sprintf("%s/%d", path, i), al[i], bl[i]); d != "" {
				return d
			}
		}
	}
	return fmt.Sprintf("%s: %.80s vs %.80s", path, Canon(a), Canon(b))
}
