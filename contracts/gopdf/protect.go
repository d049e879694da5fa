package gopdf

// C05: keys and entries of the standard security handler (40 bits, revision 2).

const sp_padding = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

// sp_padded: the first 32 bytes of the password followed by the padding.
func sp_padded(pass string) string { return (pass + sp_padding)[0:32] }

func sp_ownerEntry(user, owner string) string {
	return v_rc4(v_md5(sp_padded(owner))[0:5], sp_padded(user))
}

// sp_permWord: the permission word: all reserved bits set.
func sp_permWord(permissions int) int { return -256 + (192 | permissions) }

func sp_fileKey(user, o string, permissions int) string {
	return v_md5(sp_padded(user) + o + string([]byte{byte(192 | permissions), 0xff, 0xff, 0xff}))[0:5]
}

// sp_secured: the state of a protected document.
func sp_secured(p *PDFProtection, permissions int, user string) bool {
	o := string(p.oValue)
	key := sp_fileKey(user, o, permissions)
	return len(p.oValue) == 32 && sp_protOK(p) && p.pValue == sp_permWord(permissions) &&
		string(p.encryptionKey) == key && string(p.uValue) == v_rc4(key, sp_padding)
}

// @ contract (*PDFProtection).setProtection props=C05
func vc_setProtection(p *PDFProtection, permissions int, userPass []byte, ownerPass []byte) error {
	v_requires(p != nil && 0 <= permissions && permissions < 256)
	user, owner := string(userPass), string(ownerPass)
	v_modifies(p)
	err := p.setProtection(permissions, userPass, ownerPass)
	v_ensures("C05.secured", err == nil && sp_secured(p, permissions, user))
	v_ensures("C05.owner-entry", owner == "" || string(p.oValue) == sp_ownerEntry(user, owner))
	return err
}

// @ contract (*PDFProtection).encryptionObj props=C05
func vc_encryptionObj(p *PDFProtection) *EncryptionObj {
	v_requires(p != nil)
	v_freshResult(0)
	r := p.encryptionObj()
	v_ensures("C05.encryption-object", r != nil && string(r.oValue) == string(p.oValue) && string(r.uValue) == string(p.uValue) && r.pValue == p.pValue)
	return r
}
