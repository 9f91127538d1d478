package rdap

// VerifDecode decodes into a given target type (harness access to the
// decoder's target, as the package's own tests use it).
func VerifDecode(doc []byte, target any) (any, error) {
	d := NewDecoder(doc)
	d.target = target
	return d.Decode()
}
