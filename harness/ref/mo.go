package ref

import (
	"encoding/binary"
	"sort"
	"strings"
)

// MoEntry is one pair of a binary catalog.
type MoEntry struct {
	K string `json:"k"`
	V string `json:"v"`
}

// MoEntries converts messages as msgfmt does: fuzzy and untranslated
// messages are left out.
func MoEntries(hdr *Msg, msgs []*Msg) []MoEntry {
	var out []MoEntry
	if hdr != nil {
		out = append(out, MoEntry{"", hdr.Strs[0]})
	}
	for _, m := range msgs {
		if m.Fuzzy() {
			continue
		}
		max, any := -1, false
		for i, s := range m.Strs {
			if i > max {
				max = i
			}
			any = any || s != ""
		}
		if !any {
			continue
		}
		k := m.ID
		if m.Ctx != "" {
			k = m.Ctx + "\x04" + k
		}
		v := m.Strs[0]
		if m.HasPlural() {
			k += "\x00" + m.Plural
			var parts []string
			for i := 0; i <= max; i++ {
				parts = append(parts, m.Strs[i])
			}
			v = strings.Join(parts, "\x00")
		}
		out = append(out, MoEntry{k, v})
	}
	return out
}

// MoLayout are the liberties of the format.
type MoLayout struct {
	Big     bool
	Sorted  bool
	Shuffle bool
	Hash    bool
	Share   bool   // equal strings, tails and forms of other strings are stored once
	Rev     uint32 // format revision, major and minor 0 or 1
	C       Choose
}

// WriteMO renders a binary catalog.
func WriteMO(entries []MoEntry, l MoLayout) []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if l.Big {
		bo = binary.BigEndian
	}
	es := append([]MoEntry{}, entries...)
	sort.SliceStable(es, func(i, j int) bool { return es[i].K < es[j].K })
	if !l.Sorted && l.C != nil {
		for i := len(es) - 1; i > 0; i-- {
			j := l.C("moOrder", 0, i)
			es[i], es[j] = es[j], es[i]
		}
	}
	n := len(es)
	ch := func(name string, lo, hi int) int {
		if l.C == nil {
			return lo
		}
		return l.C(name, lo, hi)
	}
	hashSize := 0
	if l.Hash {
		hashSize = n*4/3 + 3
	}
	// segments: id table, string table, hash table, strings
	type seg struct {
		kind, idx int
		size      int
	}
	segs := []seg{{0, 0, 8 * n}, {1, 0, 8 * n}, {2, 0, 4 * hashSize}}
	for i := range es {
		segs = append(segs, seg{3, i, len(es[i].K) + 1})
	}
	for i := range es {
		segs = append(segs, seg{4, i, len(es[i].V) + 1})
	}
	if l.Shuffle {
		for i := len(segs) - 1; i > 0; i-- {
			j := ch("moSeg", 0, i)
			segs[i], segs[j] = segs[j], segs[i]
		}
	}
	pos := 28
	if l.Rev&0xffff == 1 {
		pos = 48 // sizes and offsets of system dependent strings, all 0
	}
	head := pos
	idTab, strTab, hashTab := 0, 0, 0
	idOff, strOff := make([]int, n), make([]int, n)
	var blobs []struct {
		at int
		s  string
	}
	put := func(s string) int {
		if l.Share {
			// also a part of another string that is followed by NUL
			for _, b := range blobs {
				if i := strings.Index(b.s+"\x00", s+"\x00"); i >= 0 {
					return b.at + i
				}
			}
		}
		blobs = append(blobs, struct {
			at int
			s  string
		}{pos, s})
		at := pos
		pos += len(s) + 1
		return at
	}
	for _, s := range segs {
		if l.Shuffle {
			pos += ch("moPad", 0, 5)
		}
		switch s.kind {
		case 0:
			idTab = pos
			pos += s.size
		case 1:
			strTab = pos
			pos += s.size
		case 2:
			hashTab = pos
			pos += s.size
		case 3:
			idOff[s.idx] = put(es[s.idx].K)
		case 4:
			strOff[s.idx] = put(es[s.idx].V)
		}
	}
	out := make([]byte, pos)
	if l.Shuffle {
		// padding is arbitrary
		for i := head; i < len(out); i++ {
			out[i] = 0xEE
		}
	}
	u := func(at int, v uint32) { bo.PutUint32(out[at:], v) }
	u(0, 0x950412de)
	u(4, l.Rev)
	u(8, uint32(n))
	u(12, uint32(idTab))
	u(16, uint32(strTab))
	u(20, uint32(hashSize))
	u(24, uint32(hashTab))
	for i := 0; i < hashSize; i++ {
		u(hashTab+4*i, uint32(i%(n+1)))
	}
	for i := range es {
		u(idTab+8*i, uint32(len(es[i].K)))
		u(idTab+8*i+4, uint32(idOff[i]))
		u(strTab+8*i, uint32(len(es[i].V)))
		u(strTab+8*i+4, uint32(strOff[i]))
	}
	for _, b := range blobs {
		copy(out[b.at:], b.s)
		out[b.at+len(b.s)] = 0
	}
	return out
}
