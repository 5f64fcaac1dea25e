//go:build go1.24

package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/verifmc/h/lib"
)

// special is the set of characters that must not appear as such in the index.
func special(c rune) bool {
	if c < 0x80 || c == unicode.ReplacementChar {
		return false
	}
	return unicode.IsSymbol(c) || unicode.Is(unicode.C, c) || unicode.Is(unicode.Z, c)
}

var reference = regexp.MustCompile(`^&#(?:[xX]([0-9a-fA-F]+)|([0-9]+));`)

// unescaped checks an output against the text it stands for: every character
// is itself or, if special, a reference to itself; an invalid byte has become
// one replacement character. An incomplete character at the end may be held
// back.
func unescaped(in, out []byte) error {
	for len(in) > 0 {
		c, n := utf8.DecodeRune(in)
		if !utf8.FullRune(in) && len(out) == 0 {
			return nil
		}
		if special(c) {
			m := reference.FindSubmatch(out)
			if m == nil {
				return fmt.Errorf("%U is not a reference at %.20q", c, out)
			}
			digits, base := string(m[1]), 16
			if m[2] != nil {
				digits, base = string(m[2]), 10
			}
			v, err := strconv.ParseUint(digits, base, 32)
			if err != nil || rune(v) != c {
				return fmt.Errorf("%U became %s", c, m[0])
			}
			out = out[len(m[0]):]
		} else {
			e := utf8.AppendRune(nil, c)
			if c == unicode.ReplacementChar {
				if m := reference.FindSubmatch(out); m != nil && strings.EqualFold(string(m[1]), "fffd") {
					e = m[0]
				}
			}
			if !bytes.HasPrefix(out, e) {
				return fmt.Errorf("%U (%x) became %.20q", c, in[:n], out)
			}
			out = out[len(e):]
		}
		in = in[n:]
	}
	if len(out) > 0 {
		return fmt.Errorf("additional output %.20q", out)
	}
	return nil
}

// pieces writes text cut at the set bits of cuts; bit len(text) adds empty
// writes everywhere. The caller reuses its buffer.
func pieces(text []byte, cuts uint64, empties bool) ([]byte, error) {
	var b bytes.Buffer
	w := core.NewEscapedWriter(&b)
	var buf [64]byte
	put := func(p []byte) error {
		n, err := w.Write(buf[:copy(buf[:], p)])
		if err != nil || n != len(p) {
			return fmt.Errorf("Write(%q) = %d, %v", p, n, err)
		}
		for i := range p {
			buf[i] = '#'
		}
		return nil
	}
	last := 0
	for i := 1; i <= len(text); i++ {
		if i < len(text) && cuts&(1<<(i-1)) == 0 {
			continue
		}
		if empties {
			if err := put(nil); err != nil {
				return nil, err
			}
		}
		if err := put(text[last:i]); err != nil {
			return nil, err
		}
		last = i
	}
	if empties {
		if err := put(nil); err != nil {
			return nil, err
		}
	}
	return b.Bytes(), nil
}

var escapeAlphabet = []string{
	"a", "&", "\n", "é", "\u00a9", "\u0085", "„", "€", "\u2028", "\u200b", "\ufffd", "中", "\U0001d4b3", "\U0001f600", "\U000e0041",
	"\x80", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80",
}

func escaping(r *lib.Report) {
	k := runtime.NumCPU()
	var chars, texts, splits atomic.Int64

	// every character by itself, and between others
	lib.Parallel(0x1100, k, func(blk int) {
		for c := rune(blk) << 8; c < rune(blk+1)<<8; c++ {
			if c > utf8.MaxRune || !utf8.ValidRune(c) {
				continue
			}
			chars.Add(1)
			for _, t := range []string{string(c), "a" + string(c) + "é"} {
				in := []byte(t)
				out, err := pieces(in, 0, false)
				if err == nil {
					err = unescaped(in, out)
				}
				if err != nil {
					r.Violation("character not passed on as itself", fmt.Sprintf("text %q: %v", t, err), t)
				}
				for cut := uint64(1); cut < 1<<(len(in)-1); cut++ {
					got, err := pieces(in, cut, false)
					splits.Add(1)
					if err != nil || !bytes.Equal(got, out) {
						r.Violation("output depends on the write boundaries", fmt.Sprintf("text %q, cuts %b: %q instead of %q (%v)", t, cut, got, out, err), t)
					}
				}
			}
		}
	})

	// every short text in every division
	n := lib.Pick(3, 4)
	var all []string
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, t := range level {
			for _, a := range escapeAlphabet {
				next = append(next, t+a)
			}
		}
		all = append(all, next...)
		level = next
	}
	lib.Parallel(len(all), k, func(i int) {
		in := []byte(all[i])
		if len(in) > 13 {
			in = in[:13]
		}
		texts.Add(1)
		whole, err := pieces(in, 0, false)
		if err == nil {
			err = unescaped(in, whole)
		}
		if err != nil {
			r.Violation("text not passed on as itself", fmt.Sprintf("text %q: %v", in, err), all[i])
			return
		}
		for cut := uint64(0); cut < 1<<(len(in)-1); cut++ {
			for e := 0; e < 2; e++ {
				got, err := pieces(in, cut, e == 1)
				splits.Add(1)
				if err != nil {
					r.Violation("write fails", fmt.Sprintf("text %q, cuts %b, empty writes %v: %v", in, cut, e == 1, err), all[i])
				} else if !bytes.Equal(got, whole) {
					r.Violation("output depends on the write boundaries", fmt.Sprintf("text %q, cuts %b, empty writes %v: %q instead of %q", in, cut, e == 1, got, whole), all[i])
				}
			}
		}
	})

	// the way the index uses it: an XML encoder whose buffer is cut at 4096 bytes
	type item struct {
		Value string `xml:",chardata"`
	}
	var through atomic.Int64
	valid := escapeAlphabet[:0:0]
	for _, a := range escapeAlphabet {
		if utf8.ValidString(a) && a != "\n" && a != "\ufffd" {
			valid = append(valid, a)
		}
	}
	lib.Parallel(40, k, func(off int) {
		for _, a := range valid {
			for _, b := range valid {
				t := strings.Repeat("x", 4096-30+off) + a + b + strings.Repeat(a+b, 700)
				var out bytes.Buffer
				enc := xml.NewEncoder(core.NewEscapedWriter(&out))
				err := enc.Encode(item{t})
				if err == nil {
					err = enc.Flush()
				}
				var back item
				if err == nil {
					err = xml.Unmarshal(out.Bytes(), &back)
				}
				through.Add(1)
				if err != nil || back.Value != t {
					r.Violation("index text does not read back", fmt.Sprintf("%d x, then %q and repeats: %v", 4096-30+off, a+b, err), []any{off, a, b})
				}
			}
		}
	})
	r.Count(texts.Load()+chars.Load(), splits.Load(), splits.Load()+through.Load())
	r.Set("characters", chars.Load())
	r.Set("texts", texts.Load())
	r.Set("divisions_into_writes", splits.Load())
	r.Set("texts_through_the_xml_encoder", through.Load())
	r.Set("bounds", fmt.Sprintf("every Unicode character alone and between others; every text of up to %d elements of %d (characters of 1 to 4 bytes, special and plain, and invalid or incomplete sequences; up to 13 bytes) in every division into writes, with and without empty writes, the caller reusing its buffer", n, len(escapeAlphabet)))
	r.Sample(map[string]string{"text": all[len(all)-1]})
}
