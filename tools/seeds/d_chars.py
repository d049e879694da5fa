GRP='''
func seedGroups(p interface{}, name string, v interface{}) {
	f := reflect.ValueOf(p).Elem().FieldByName(name)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}
'''
seed("C10-group-end","C10","a character above 0xFFFF that is the last one of a group of its font's character map that holds several",
"The last character of a group is taken for one the font does not have.",
[("subset_font_obj.go","if value >= gTb.StartCharCode && value <= gTb.EndCharCode {","if value == gTb.StartCharCode || value > gTb.StartCharCode && value < gTb.EndCharCode {")],
GRP+'''
func TestSeedDemo(t *testing.T) {
	s := &SubsetFontObj{}
	s.init(nil)
	seedGroups(&s.ttfp, "groupingTables", []core.CmapFormat12GroupingTable{{StartCharCode: 0x1F600, EndCharCode: 0x1F602, GlyphID: 10}})
	if g, err := s.CharCodeToGlyphIndex(0x1F602); g != 12 || err != nil {
		t.Fatalf("demo: %d %v", g, err)
	}
}
''',"reflect unsafe github.com/signintech/gopdf/fontmaker/core")
seed("C10-second-replacement","C10","a text with two characters the font lacks, when a character is chosen to stand for them",
"From the second one on, a missing character is left out although a character was chosen to stand for it.",
[("subset_font_obj.go",'''			if !alreadyExists {
				s.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex
			}
''','''			if !alreadyExists {
				s.CharacterToGlyphIndex.Set(runeValueReplace, glyphIndexReplace) // [runeValue] = glyphIndex
			} else if len(s.addCharsBuff) > 0 && s.addCharsBuff[len(s.addCharsBuff)-1] == runeValueReplace {
				continue
			}
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := &SubsetFontObj{}
	s.init(nil)
	s.SetTtfFontOption(TtfOption{OnGlyphNotFoundSubstitute: func(r rune) rune { return '?' }})
	if err := s.SetTTFByPath("test/res/LiberationSerif-Regular.ttf"); err != nil {
		t.Fatal(err)
	}
	out, err := s.AddChars("a\\u4e00\\u4e8cb")
	if err != nil || out != "a??b" {
		t.Fatalf("demo: %q %v", out, err)
	}
}
''')
seed("C10-surrogate","C10","a character between U+10000 and U+1FFFF whose glyph is used",
"The map to Unicode holds the character's number in five digits, which is no UTF-16.",
[("unicode_map.go","		if v > 0xFFFF { // surrogate pair","		if v > 0x1FFFF { // surrogate pair")],
'''
func TestSeedDemo(t *testing.T) {
	s := &SubsetFontObj{CharacterToGlyphIndex: NewMapOfCharacterToGlyphIndex()}
	s.CharacterToGlyphIndex.Set(0x1F600, 7)
	u := &UnicodeMap{PtrToSubsetFontObj: s}
	var b bytes.Buffer
	if err := u.write(&b, 1); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "<0007><0007><D83DDE00>") {
		t.Fatalf("demo: %s", b.String())
	}
}
''',"bytes strings")
seed("C10-tail-width","C10","a glyph whose number is beyond the glyphs the font gives an advance of their own",
"Glyphs beyond the last one with an advance of its own get the advance of the one before that.",
[("subset_font_obj.go",'''		glyphIndex = numberOfHMetrics - 1
''','''		glyphIndex = numberOfHMetrics - 2 + numberOfHMetrics%2
''')],
GRP+'''
func TestSeedDemo(t *testing.T) {
	s := &SubsetFontObj{}
	s.init(nil)
	seedGroups(&s.ttfp, "numberOfHMetrics", uint(4))
	seedGroups(&s.ttfp, "widths", []uint{1, 2, 3, 4, 4, 4})
	seedGroups(&s.ttfp, "unitsPerEm", uint(1000))
	if w := s.GlyphIndexToPdfWidth(5); w != 4 {
		t.Fatalf("demo: %d", w)
	}
}
''',"reflect unsafe")
