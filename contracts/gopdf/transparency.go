package gopdf

import "fmt"

// C18: transparency settings are checked, kept under an id made of their
// values, and registered once per id.

// @ merge
func sp_knownMode(m string) bool {
	return m == "/Hue" || m == "/Color" || m == "/Normal" || m == "/Darken" || m == "/Screen" || m == "/Overlay" || m == "/Lighten" || m == "/Multiply" ||
		m == "/Exclusion" || m == "/ColorBurn" || m == "/HardLight" || m == "/SoftLight" || m == "/Difference" || m == "/Saturation" || m == "/Luminosity" || m == "/ColorDodge"
}

// @ merge
func sp_modeName(m string) string {
	if m == "" {
		return "/Normal"
	}
	return m
}

// @ merge
func sp_whenF(b bool, x float64) float64 {
	if b {
		return x
	}
	return 0
}

// @ contract NewTransparency props=C18
func vc_NewTransparency(alpha float64, mode string) (Transparency, error) {
	t, err := NewTransparency(alpha, mode)
	v_ensures("C18.refused", v_iff(err == nil, 0 <= alpha && alpha <= 1 && (mode == "" || sp_knownMode(mode))))
	v_ensures("C18.as-given", t.Alpha == sp_whenF(err == nil, alpha) && t.extGStateIndex == 0 && string(t.BlendModeType) == sp_when(err == nil, sp_modeName(mode)))
	return t, err
}

func sp_transpId(alpha float64, mode string) string {
	return fmt.Sprintf("%.3f_%s", alpha, mode)
}

// @ contract (*TransparencyMap).Find props=C18
func vc_tm_Find(tm *TransparencyMap, t Transparency) (Transparency, bool) {
	v_requires(tm != nil)
	r, ok := tm.Find(t)
	s, in := tm.table[sp_transpId(t.Alpha, string(t.BlendModeType))]
	v_ensures("C18.found", ok == in && (!ok || r == s))
	return r, ok
}

// @ contract (*TransparencyMap).Save props=C18
func vc_tm_Save(tm *TransparencyMap, t Transparency) Transparency {
	v_requires(tm != nil && tm.table != nil)
	k0 := sp_transpId(t.Alpha, string(t.BlendModeType))
	before := v_snapTransparencies(tm.table)
	v_modifies(tm.table)
	r := tm.Save(t)
	s, in := tm.table[k0]
	v_ensures("C18.saved", in && s == t && r == t)
	v_ensures("C18.others-kept", v_forallStr(func(k string) bool {
		a, oka := tm.table[k]
		b, okb := before[k]
		return k == k0 || oka == okb && (!oka || a == b)
	}))
	return r
}

// @ opaque sp_gsText
// @ merge
func sp_realOf(p *float64) float64 {
	if p == nil {
		return 0
	}
	return *p
}

// @ merge
func sp_modeAt(p *BlendModeType) string {
	if p == nil {
		return ""
	}
	return string(*p)
}

// @ merge
func sp_intOf(p *int) int {
	if p == nil {
		return 0
	}
	return *p
}

// sp_gsText: the key of a graphics state with these entries.
func sp_gsText(hasCA bool, CA float64, hasca bool, ca float64, hasBM bool, bm string, hasSMask bool, smask int) string {
	return sp_when(hasCA, fmt.Sprintf("CA_%.3f;", CA)) + sp_when(hasca, fmt.Sprintf("ca_%.3f;", ca)) +
		sp_when(hasBM, fmt.Sprintf("BM_%s;", bm)) + sp_when(hasSMask, fmt.Sprintf("SMask_%d_0_R;", smask))
}

func sp_gsId(CA, ca *float64, bm *BlendModeType, smask *int) string {
	return sp_gsText(CA != nil, sp_realOf(CA), ca != nil, sp_realOf(ca), bm != nil, sp_modeAt(bm), smask != nil, sp_intOf(smask))
}

// @ lemma props=C03
func lm_gsMask(hasCA bool, CA float64, hasca bool, ca float64, hasBM bool, bm string, hasSMask bool, smask, i int) {
	eq := sp_gsText(false, 0, false, 0, false, "", true, i)
	if hasCA {
		v_requires(sp_gsText(true, CA, hasca, ca, hasBM, bm, hasSMask, smask) == eq)
		v_ensures("C03.id-names-the-mask", false)
	} else if hasca {
		v_requires(sp_gsText(false, CA, true, ca, hasBM, bm, hasSMask, smask) == eq)
		v_ensures("C03.id-names-the-mask", false)
	} else if hasBM {
		v_requires(sp_gsText(false, CA, false, ca, true, bm, hasSMask, smask) == eq)
		v_ensures("C03.id-names-the-mask", false)
	} else if hasSMask {
		v_requires(sp_gsText(false, CA, false, ca, false, bm, true, smask) == eq)
		v_ensures("C03.id-names-the-mask", smask == i)
	} else {
		v_requires(sp_gsText(false, CA, false, ca, false, bm, false, smask) == eq)
		v_ensures("C03.id-names-the-mask", false)
	}
}

// @ contract (ExtGStateOptions).GetId props=C18
func vc_ExtGStateOptions_GetId(o ExtGStateOptions) string {
	r := o.GetId()
	v_ensures("C18.key-of-values", r == sp_gsId(o.StrokingCA, o.NonStrokingCa, o.BlendMode, o.SMaskIndex))
	return r
}

// sp_gsAt: a graphics state with this id is registered under number i+1 and
// listed among the resources.
func sp_gsAt(gp *GoPdf, i int, id string) bool {
	if i < 0 || i >= len(gp.pdfObjs) {
		return false
	}
	e, ok := gp.pdfObjs[i].(ExtGState)
	return ok && sp_gsId(e.CA, e.ca, e.BM, e.SMaskIndex) == id
}

// sp_masks: a graphics state that applies the soft mask of this number.
//
// @ merge
func sp_masks(o IObj, mask int) bool {
	e, ok := o.(ExtGState)
	return ok && e.SMaskIndex != nil && *e.SMaskIndex == mask
}

// sp_masksGroup: it applies the soft mask of the group under number g+1.
func sp_masksGroup(gp *GoPdf, i, g int) bool {
	if i < 0 || i >= len(gp.pdfObjs) {
		return false
	}
	e, ok := gp.pdfObjs[i].(ExtGState)
	return ok && e.SMaskIndex != nil && sp_smaskAt(gp, *e.SMaskIndex, g, SMaskLuminositySubtype)
}

// sp_isLumMask: a soft mask by luminosity is registered under number i+1.
//
// @ merge
func sp_isLumMask(objs []IObj, i int) bool {
	if i < 0 || i >= len(objs) {
		return false
	}
	m, ok := objs[i].(SMask)
	return ok && m.S == SMaskLuminositySubtype
}

// @ merge
func sp_maskedGroup(objs []IObj, i int) int {
	if i < 0 || i >= len(objs) {
		return 0
	}
	m, ok := objs[i].(SMask)
	if !ok {
		return 0
	}
	return m.TransparencyXObjectGroupIndex
}

func sp_isProcSet(o IObj) bool {
	p, ok := o.(*ProcSetObj)
	return ok && p != nil
}

func sp_procsetOK(gp *GoPdf) bool {
	i := gp.indexOfProcSet
	return 0 <= i && i < len(gp.pdfObjs) && sp_isProcSet(gp.pdfObjs[i])
}

func sp_gsMapOK(gp *GoPdf) bool {
	t := gp.curr.extGStatesMap.table
	return t != nil && v_forallStr(func(k string) bool {
		s, in := t[k]
		return !in || sp_gsAt(gp, s.Index, k)
	})
}

// @ contract GetCachedExtGState props=C18,C03
func vc_GetCachedExtGState(opts ExtGStateOptions, gp *GoPdf) (ExtGState, error) {
	v_requires(gp != nil && sp_procsetOK(gp) && sp_gsMapOK(gp))
	id := sp_gsId(opts.StrokingCA, opts.NonStrokingCa, opts.BlendMode, opts.SMaskIndex)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	gs := v_snapExtGS(pr.ExtGStates)
	kept, had := gp.curr.extGStatesMap.table[id]
	onlyMask := opts.StrokingCA == nil && opts.NonStrokingCa == nil && opts.BlendMode == nil && opts.SMaskIndex != nil
	mask := sp_intOf(opts.SMaskIndex)
	v_modifies(&gp.pdfObjs, &pr.ExtGStates, gp.curr.extGStatesMap.table)
	v_proof(func() {
		if had && onlyMask {
			e := before[kept.Index].(ExtGState)
			lm_gsMask(e.CA != nil, sp_realOf(e.CA), e.ca != nil, sp_realOf(e.ca), e.BM != nil, sp_modeAt(e.BM), e.SMaskIndex != nil, sp_intOf(e.SMaskIndex), mask)
		}
	})
	r, err := GetCachedExtGState(opts, gp)
	objs := gp.pdfObjs
	v_ensures("C18+C03.state-of-these-values", err == nil && sp_gsAt(gp, r.Index, id))
	v_ensures("C18.equal-settings-share", !had || len(objs) == n && len(pr.ExtGStates) == len(gs))
	v_ensures("C18.new-settings-get-their-own", had || len(objs) == n+1 && r.Index == n && len(pr.ExtGStates) == len(gs)+1 && pr.ExtGStates[len(gs)].Index == n)
	v_ensures("C18.states-kept", v_forall(0, n, func(j int) bool { return objs[j] == before[j] }) && v_forall(0, len(gs), func(j int) bool { return pr.ExtGStates[j] == gs[j] }))
	v_ensures("C03.state-of-this-mask", !onlyMask || sp_masks(objs[r.Index], mask))
	kmask := onlyMask && 0 <= mask && mask < n
	v_ensures("C03.mask-as-it-was", !kmask || objs[mask] == before[mask])
	group := sp_maskedGroup(before, mask)
	isMask := onlyMask && sp_isLumMask(before, mask)
	v_ensures("C03.state-of-this-group", !isMask || sp_masksGroup(gp, r.Index, group))
	v_ensures("C18.cache-sound", sp_procsetOK(gp) && sp_gsMapOK(gp))
	_, now := gp.curr.extGStatesMap.table[id]
	v_ensures("C18.remembered", now)
	return r, err
}

// sp_stateId: the id of the graphics state of a setting.
func sp_stateId(alpha float64, mode string) string {
	return fmt.Sprintf("CA_%.3f;ca_%.3f;BM_%s;", alpha, alpha, mode)
}

func sp_modeOf(m BlendModeType) string { return sp_modeName(string(m)) }

// @ lemma props=C18
func lm_transpId(a, b float64, m, n string) {
	v_requires(0 <= a && a <= 1 && 0 <= b && b <= 1)
	v_requires(sp_transpId(a, m) == sp_transpId(b, n))
	v_ensures("C18.id-names-the-values", fmt.Sprintf("%.3f", a) == fmt.Sprintf("%.3f", b) && m == n)
	v_ensures("C18.id-names-the-state", sp_stateId(a, m) == sp_stateId(b, n))
}

// sp_trEntry: a remembered setting has its graphics state registered.
func sp_trEntry(gp *GoPdf, k string, t Transparency) bool {
	return 0 <= t.Alpha && t.Alpha <= 1 && k == sp_transpId(t.Alpha, string(t.BlendModeType)) &&
		sp_gsAt(gp, t.extGStateIndex-1, sp_stateId(t.Alpha, string(t.BlendModeType)))
}

func sp_trMapOK(gp *GoPdf) bool {
	m := gp.curr.transparencyMap.table
	return m != nil && v_forallStr(func(k string) bool {
		t, in := m[k]
		return !in || sp_trEntry(gp, k, t)
	})
}

// @ contract (*GoPdf).saveTransparency props=C18 timeout=300
func vc_saveTransparency(gp *GoPdf, t *Transparency) (*Transparency, error) {
	v_requires(gp != nil && t != nil && sp_procsetOK(gp) && sp_gsMapOK(gp) && sp_trMapOK(gp))
	alpha, mode := t.Alpha, sp_modeOf(t.BlendModeType)
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	old, had := gp.curr.transparencyMap.table[sp_transpId(alpha, mode)]
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	v_modifies(&gp.pdfObjs, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table)
	v_freshResult(0)
	r, err := gp.saveTransparency(t)
	objs := gp.pdfObjs
	if had && err == nil {
		lm_transpId(alpha, old.Alpha, mode, string(old.BlendModeType))
	}
	v_ensures("C18.bad-setting-refused", v_iff(err == nil, 0 <= alpha && alpha <= 1 && sp_knownMode(mode)))
	v_ensures("C18.refused-changes-nothing", err == nil || r == nil && len(objs) == n)
	v_ensures("C18.state-of-the-setting", err != nil || r == nil || sp_gsAt(gp, r.extGStateIndex-1, sp_stateId(alpha, mode)))
	v_ensures("C18.none-only-if-opaque", err != nil || r != nil || alpha == 1 && mode == "/Normal")
	v_ensures("C18.equal-settings-share", !had || len(objs) == n)
	v_ensures("C18.states-kept", len(objs) >= n && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }))
	v_ensures("C18.cache-sound", sp_procsetOK(gp) && sp_gsMapOK(gp) && sp_trMapOK(gp))
	return r, err
}

// sp_transOK: what the calls that set transparency keep true.
func sp_transOK(gp *GoPdf) bool {
	return sp_procsetOK(gp) && sp_gsMapOK(gp) && sp_trMapOK(gp)
}

// sp_curTransOK: the current transparency has its graphics state registered.
func sp_curTransOK(gp *GoPdf) bool {
	t := gp.curr.transparency
	return t == nil || sp_gsAt(gp, t.extGStateIndex-1, sp_stateId(t.Alpha, string(t.BlendModeType)))
}

// @ check (*GoPdf).SetTransparency props=C18
func vc_SetTransparency(gp *GoPdf, t Transparency) error {
	v_requires(gp != nil && sp_transOK(gp))
	alpha, mode := t.Alpha, sp_modeOf(t.BlendModeType)
	old := gp.curr.transparency
	before := v_snapObjs(gp.pdfObjs)
	n := len(before)
	pr := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
	v_modifies(&gp.pdfObjs, &pr.ExtGStates, gp.curr.extGStatesMap.table, gp.curr.transparencyMap.table, &gp.curr.transparency)
	err := gp.SetTransparency(t)
	objs := gp.pdfObjs
	cur := gp.curr.transparency
	v_ensures("C18.bad-setting-refused", v_iff(err == nil, 0 <= alpha && alpha <= 1 && sp_knownMode(mode)))
	v_ensures("C18.refused-changes-nothing", err == nil || cur == old && len(objs) == n)
	v_ensures("C18.set", err != nil || cur == nil || sp_gsAt(gp, cur.extGStateIndex-1, sp_stateId(alpha, mode)))
	v_ensures("C18.none-only-if-opaque", err != nil || cur != nil || alpha == 1 && mode == "/Normal")
	v_ensures("C18.states-kept", len(objs) >= n && v_forall(0, n, func(j int) bool { return objs[j] == before[j] }))
	v_ensures("C18.cache-sound", sp_transOK(gp))
	return err
}

// @ check (*GoPdf).ClearTransparency props=C18
func vc_ClearTransparency(gp *GoPdf) {
	v_requires(gp != nil)
	v_modifies(&gp.curr.transparency)
	gp.ClearTransparency()
	v_ensures("C18.cleared", gp.curr.transparency == nil)
}
