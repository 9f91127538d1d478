package zzverif

import "github.com/openrdap/rdap"

func init() { decodeInto = rdap.VerifDecode }
