package zzverif

import "pgregory.net/rapid"

// mutateBytes changes some of a text: it drops, repeats, replaces and inserts.
func mutateBytes(t *rapid.T, b []byte, tokens []string) []byte {
	b = append([]byte(nil), b...)
	for n := between(t, "mutations", 0, 4); n > 0; n-- {
		i := uniform(t, "at", len(b)+1)
		j := min(len(b), i+between(t, "len", 1, 4))
		switch uniform(t, "how", 5) {
		case 0:
			b = append(b[:i:i], b[j:]...)
		case 1:
			b = append(b[:j:j], b[i:]...)
		case 2:
			b = append(append(append([]byte(nil), b[:i]...), pick(t, "token", tokens)...), b[j:]...)
		case 3:
			b = append(append(append([]byte(nil), b[:i]...), pick(t, "token", tokens)...), b[i:]...)
		default:
			b = b[:i:i]
		}
	}
	return b
}
