package gopdf

// C10: characters and glyphs.

// @ opaque sp_seg sp_group sp_hasGlyph sp_cmap wf_cmap

// sp_seg: the first of the first n segments that ends at or after the value,
// n if there is none.
func sp_seg(ends []uint, v uint, n int) int {
	if n <= 0 {
		return 0
	}
	s := sp_seg(ends, v, n-1)
	if s == n-1 && v > ends[n-1] {
		return n
	}
	return s
}

// @ lemma props=C10
func lm_seg(ends []uint, v uint, n int) {
	v_requires(0 <= n && n <= len(ends))
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_seg(ends, v, n-1)
		}
	})
	s := sp_seg(ends, v, n)
	v_ensures("C10.first-segment", 0 <= s && s <= n && v_forall(0, s, func(j int) bool { return v > ends[j] }) && (s == n || v <= ends[s]))
}

// wf_cmap: what parsing leaves: one entry per segment in each array.
func wf_cmap(f *SubsetFontObj) bool {
	t := &f.ttfp
	n := uint(len(t.EndCount))
	return t.SegCount == n && uint(len(t.StartCount)) == n && uint(len(t.IdDelta)) == n && uint(len(t.IdRangeOffset)) == n && n < 65536 && uint(len(t.GlyphIdArray)) < 1<<40 &&
		v_forall(0, int(n), func(j int) bool {
			return t.StartCount[j] < 65536 && t.IdRangeOffset[j] < 65536 && t.IdDelta[j] < 65536
		}) && v_forall(0, len(t.GlyphIdArray), func(j int) bool { return t.GlyphIdArray[j] < 65536 })
}

// sp_has4, sp_glyph4: a character-map subtable of format 4.
// @ merge
func sp_has4(f *SubsetFontObj, v uint) bool {
	t := &f.ttfp
	n := int(t.SegCount)
	s := sp_seg(t.EndCount, v, n)
	if s >= n || v < t.StartCount[s] {
		return false
	}
	i := sp_idIndex(f, v, s)
	return t.IdRangeOffset[s] == 0 || 0 <= i && i < len(t.GlyphIdArray)
}

// sp_idIndex: where the range offset of a segment, counted in bytes from its
// own place, leads in the glyph array behind the offsets.
func sp_idIndex(f *SubsetFontObj, v uint, s int) int {
	t := &f.ttfp
	return int(t.IdRangeOffset[s]/2) + int(v) - int(t.StartCount[s]) - (int(t.SegCount) - s)
}

// @ merge
func sp_glyph4(f *SubsetFontObj, v uint) uint {
	t := &f.ttfp
	s := sp_seg(t.EndCount, v, int(t.SegCount))
	if t.IdRangeOffset[s] == 0 {
		return (v + t.IdDelta[s]) % 65536
	}
	g := t.GlyphIdArray[sp_idIndex(f, v, s)]
	if g == 0 {
		return 0
	}
	return (g + t.IdDelta[s]) % 65536
}

// sp_group: the first of the first n groups that holds the value, n if none.
func sp_group(f *SubsetFontObj, v uint, n int) int {
	if n <= 0 {
		return 0
	}
	g := sp_group(f, v, n-1)
	if g == n-1 && !sp_inGroup(f, v, n-1) {
		return n
	}
	return g
}

func sp_inGroup(f *SubsetFontObj, v uint, j int) bool {
	g := f.ttfp.GroupingTables()[j]
	return g.StartCharCode <= v && v <= g.EndCharCode
}

// @ lemma props=C10
func lm_group(f *SubsetFontObj, v uint, n int) {
	v_requires(f != nil && 0 <= n && n <= len(f.ttfp.GroupingTables()))
	v_decr(n)
	v_proof(func() {
		if n > 0 {
			lm_group(f, v, n-1)
		}
	})
	s := sp_group(f, v, n)
	v_ensures("C10.first-group", 0 <= s && s <= n && v_forall(0, s, func(j int) bool { return !sp_inGroup(f, v, j) }) && (s == n || sp_inGroup(f, v, s)))
}

// sp_hasGlyph, sp_cmap: what the font's character map says of a character.
// @ merge
func sp_hasGlyph(f *SubsetFontObj, r rune) bool {
	if uint64(r) <= 0xFFFF {
		return sp_has4(f, uint(r))
	}
	return sp_group(f, uint(r), len(f.ttfp.GroupingTables())) < len(f.ttfp.GroupingTables())
}

// @ merge
func sp_cmap(f *SubsetFontObj, r rune) uint {
	if uint64(r) <= 0xFFFF {
		return sp_glyph4(f, uint(r))
	}
	g := f.ttfp.GroupingTables()[sp_group(f, uint(r), len(f.ttfp.GroupingTables()))]
	return g.GlyphID + (uint(r) - g.StartCharCode)
}

// @ loop (*SubsetFontObj).charCodeToGlyphIndexFormat4 0
func vl_format4(s *SubsetFontObj, r rune, value, seg, segCount uint) {
	v_inv(seg <= segCount && v_forall(0, int(seg), func(j int) bool { return value > s.ttfp.EndCount[j] }))
}

// @ loop (*SubsetFontObj).charCodeToGlyphIndexFormat12 0
func vl_format12(s *SubsetFontObj, r rune, value uint, iter_ int) {
	v_inv(v_forall(0, iter_, func(j int) bool { return !sp_inGroup(s, value, j) }))
}

// @ contract (*SubsetFontObj).CharCodeToGlyphIndex props=C10
func vc_CharCodeToGlyphIndex(f *SubsetFontObj, r rune) (uint, error) {
	v_requires(f != nil && wf_cmap(f))
	v_nopanic()
	v_proof(func() {
		lm_seg(f.ttfp.EndCount, uint(r), int(f.ttfp.SegCount))
		lm_group(f, uint(r), len(f.ttfp.GroupingTables()))
	})
	g, err := f.CharCodeToGlyphIndex(r)
	v_ensures("C10.mapped", v_implies(sp_hasGlyph(f, r), err == nil && g == sp_cmap(f, r)))
	v_ensures("C10.not-mapped", v_implies(!sp_hasGlyph(f, r), err == ErrGlyphNotFound))
	return g, err
}

// sp_charGlyph: the glyph a character of the font has: the one of its
// character map, 0 (the missing glyph) if it has none.
// @ merge
func sp_charGlyph(f *SubsetFontObj, r rune) uint {
	if sp_hasGlyph(f, r) {
		return sp_cmap(f, r)
	}
	return 0
}

// sp_faithful: each character noted in the font is noted with its own glyph.
func sp_faithful(f *SubsetFontObj) bool {
	m := f.CharacterToGlyphIndex
	return m != nil && m.keyIndexs != nil && len(m.Keys) == len(m.Vals) && v_forallRune(func(r rune) bool {
		i, ok := m.keyIndexs[r]
		return !ok || 0 <= i && i < len(m.Keys) && m.Keys[i] == r && m.Vals[i] == sp_charGlyph(f, r)
	})
}

// sp_picked: what a text's character becomes: itself, or the replacement the
// caller's handler chooses if the font does not have it.
func sp_picked(f *SubsetFontObj, r, out rune) bool {
	if sp_hasGlyph(f, r) || f.ttfFontOption.OnGlyphNotFoundSubstitute == nil {
		return out == r
	}
	return out == r || out == f.ttfFontOption.OnGlyphNotFoundSubstitute(r)
}

// @ check (*MapOfCharacterToGlyphIndex).Set props=C10
func vc_mapSet(m *MapOfCharacterToGlyphIndex, k rune, v uint) {
	v_requires(m != nil && wf_charmap(m) && !m.KeyExists(k))
	n := len(m.Keys)
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs)
	m.Set(k, v)
	g, ok := m.Val(k)
	v_ensures("C10.noted", ok && g == v && len(m.Keys) == n+1 && wf_charmap(m))
}

// @ loop (*SubsetFontObj).AddChars 0
func vl_AddChars(s *SubsetFontObj, txt string, iter_ int) {
	m := s.CharacterToGlyphIndex
	n := v_entryInt(func() int { return len(m.Keys) })
	v_inv(sp_faithful(s) && len(s.addCharsBuff) == iter_)
	v_inv(len(m.Keys) >= n)
	v_inv(v_forall(0, iter_, func(j int) bool { return sp_known(s, s.addCharsBuff[j]) }))
	v_inv(v_forall(0, iter_, func(j int) bool { return sp_picked(s, []rune(txt)[j], s.addCharsBuff[j]) }))
}

// @ contract (*SubsetFontObj).AddChars props=C10
func vc_AddChars(f *SubsetFontObj, txt string) (string, error) {
	v_requires(f != nil && wf_cmap(f) && sp_faithful(f))
	m := f.CharacterToGlyphIndex
	keys := len(m.Keys)
	v_modifies(&m.Keys, &m.Vals, m.keyIndexs, &f.addCharsBuff)
	out, err := f.AddChars(txt)
	v_ensures("C10.no-character-lost", err == nil && len([]rune(out)) == len([]rune(txt)))
	v_ensures("C10.every-character-noted", v_forall(0, len([]rune(out)), func(j int) bool { return sp_known(f, []rune(out)[j]) }))
	v_ensures("C10.itself-or-replacement", v_forall(0, len([]rune(out)), func(j int) bool { return sp_picked(f, []rune(txt)[j], []rune(out)[j]) }))
	v_ensures("C10.own-glyphs", sp_faithful(f) && len(m.Keys) >= keys)
	return out, err
}
