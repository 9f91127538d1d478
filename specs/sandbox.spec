package sandbox

props C25

define bundled(f string) bool = f == "DigiCert_RDAP_Pilot_Client_Certificate.p12" || f == "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12" || f == "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"

func sandbox.IsFileInSandbox
ensures [C25 exactly the three bundled names] result <==> bundled(filename)
modifies nothing

func sandbox.LoadFile
letold N0 = g.readN
ensures [C25 another name is refused] !bundled(filename) ==> err != nil && len(result) == 0
ensures [C25 and no file is read for it] !bundled(filename) ==> g.readN == N0
ensures [C25 a bundled name is read once] bundled(filename) ==> err == nil && g.readN == N0 + 1
modifies everything
