package gopdf

// C06: units.

// spec: points per unit.
// @ merge
func sp_factor(unit int, conv float64) float64 {
	if conv != 0 {
		return conv
	}
	switch unit {
	case UnitPT:
		return 1
	case UnitMM:
		return 72 / 25.4
	case UnitCM:
		return 72 / 2.54
	case UnitIN:
		return 72
	case UnitPX:
		return 72.0 / 96.0
	}
	return 1
}

// @ contract UnitsToPoints props=C06
func vc_UnitsToPoints(t int, u float64) float64 {
	r := UnitsToPoints(t, u)
	v_ensures("C06.units-to-points", v_eqF(r, u*sp_factor(t, 0)))
	return r
}

// @ contract PointsToUnits props=C06
func vc_PointsToUnits(t int, u float64) float64 {
	r := PointsToUnits(t, u)
	v_ensures("C06.points-to-units", v_eqF(r, u/sp_factor(t, 0)))
	return r
}

// @ check (*Rect).UnitsToPoints props=C06
func vc_Rect_UnitsToPoints(rect *Rect, t int) *Rect {
	v_requires(rect != nil)
	w, h := rect.W, rect.H
	f := sp_factor(t, 0)
	if rect.unitOverride.Unit != UnitUnset {
		f = sp_factor(rect.unitOverride.Unit, rect.unitOverride.ConversionForUnit)
	}
	v_freshResult(0)
	r := rect.UnitsToPoints(t)
	v_ensures("C06.rect", r != nil && v_eqF(r.W, w*f) && v_eqF(r.H, h*f))
	return r
}

// @ merge
func sp_unitFactor(u unitConfigurator) float64 {
	return sp_factor(u.getUnit(), u.getConversionForUnit())
}

// @ merge
func sp_docFactor(gp *GoPdf) float64 { return sp_factor(gp.config.Unit, gp.config.ConversionForUnit) }

// @ contract unitsToPoints props=C06 dyn=unitCfg
func vc_unitsToPoints(unitCfg unitConfigurator, u float64) float64 {
	v_requires(unitCfg != nil)
	r := unitsToPoints(unitCfg, u)
	v_ensures("C06.units-to-points", v_eqF(r, u*sp_unitFactor(unitCfg)))
	return r
}

// @ contract pointsToUnits props=C06 dyn=unitCfg
func vc_pointsToUnits(unitCfg unitConfigurator, u float64) float64 {
	v_requires(unitCfg != nil)
	r := pointsToUnits(unitCfg, u)
	v_ensures("C06.points-to-units", v_eqF(r, u/sp_unitFactor(unitCfg)))
	return r
}

// @ lemma props=C06
func lm_unitsInverse(unit int, conv, u float64) {
	v_ensures("C06.inverse", v_eqF(u*sp_factor(unit, conv)/sp_factor(unit, conv), u) && v_eqF(u/sp_factor(unit, conv)*sp_factor(unit, conv), u))
}

// @ merge
func sp_boxFactor(override defaultUnitConfig, unit int, conv float64) float64 {
	if override.Unit != UnitUnset {
		return sp_factor(override.Unit, override.ConversionForUnit)
	}
	return sp_factor(unit, conv)
}

// @ check (*Rect).PointsToUnits props=C06
func vc_Rect_PointsToUnits(rect *Rect, t int) *Rect {
	v_requires(rect != nil)
	w, h, f := rect.W, rect.H, sp_boxFactor(rect.unitOverride, t, 0)
	v_freshResult(0)
	r := rect.PointsToUnits(t)
	v_ensures("C06.rect", r != nil && v_eqF(r.W, w/f) && v_eqF(r.H, h/f))
	return r
}

// @ check (*Rect).unitsToPoints props=C06 dyn=unitCfg
func vc_Rect_unitsToPoints(rect *Rect, unitCfg unitConfigurator) *Rect {
	v_requires(rect != nil)
	w, h, f := rect.W, rect.H, sp_boxFactor(rect.unitOverride, unitCfg.getUnit(), unitCfg.getConversionForUnit())
	v_freshResult(0)
	r := rect.unitsToPoints(unitCfg)
	v_ensures("C06.rect", r != nil && v_eqF(r.W, w*f) && v_eqF(r.H, h*f))
	return r
}

// @ check (*Box).UnitsToPoints props=C06
func vc_Box_UnitsToPoints(box *Box, t int) *Box {
	v_requires(box != nil)
	b, f := *box, sp_boxFactor(box.unitOverride, t, 0)
	v_freshResult(0)
	r := box.UnitsToPoints(t)
	v_ensures("C06.box", r != nil && v_eqF(r.Left, b.Left*f) && v_eqF(r.Top, b.Top*f) && v_eqF(r.Right, b.Right*f) && v_eqF(r.Bottom, b.Bottom*f))
	return r
}

// @ check (*Box).unitsToPoints props=C06 dyn=unitCfg
func vc_Box_unitsToPoints(box *Box, unitCfg unitConfigurator) *Box {
	v_requires(box != nil)
	b, f := *box, sp_boxFactor(box.unitOverride, unitCfg.getUnit(), unitCfg.getConversionForUnit())
	v_freshResult(0)
	r := box.unitsToPoints(unitCfg)
	v_ensures("C06.box", r != nil && v_eqF(r.Left, b.Left*f) && v_eqF(r.Top, b.Top*f) && v_eqF(r.Right, b.Right*f) && v_eqF(r.Bottom, b.Bottom*f))
	return r
}

// @ check (*Box).unitsToPoints props=C06
func vc_Box_unitsToPoints_nil(box *Box, unitCfg unitConfigurator) *Box {
	v_requires(box == nil)
	r := box.unitsToPoints(unitCfg)
	v_ensures("C06.no-box", r == nil)
	return r
}

// @ check (*GoPdf).UnitsToPoints props=C06
func vc_GoPdf_UnitsToPoints(gp *GoPdf, u float64) float64 {
	v_requires(gp != nil)
	r := gp.UnitsToPoints(u)
	v_ensures("C06.document-units", v_eqF(r, u*sp_docFactor(gp)))
	return r
}

// @ check (*GoPdf).PointsToUnits props=C06
func vc_GoPdf_PointsToUnits(gp *GoPdf, u float64) float64 {
	v_requires(gp != nil)
	r := gp.PointsToUnits(u)
	v_ensures("C06.document-units", v_eqF(r, u/sp_docFactor(gp)))
	return r
}
