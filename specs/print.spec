package rdap

props C22 C23

define noBad(s string) bool = !contains(s, "\n") && !contains(s, "\r") && !contains(s, "\x00")
// one whole line: a newline at the end and nothing before it that could start another
define isLine(t string) bool = len(t) > 0 && suffix(t, "\n") && noBad(t[:len(t)-1])
define okP(p *Printer) bool = p != nil && p.IndentChar != 10 && p.IndentChar != 13 && p.IndentChar != 0

func rdap.removeBadRunes
ensures [C22 exactly newline, carriage return and NUL are removed] result == ite(r == 10 || r == 13 || r == 0, 0-1, r)
modifies nothing

func (*rdap.Printer).cleanString
requires this != nil
ensures [C22 newlines, carriage returns and NULs are removed] noBad(result)
ensures [C22 other text is unchanged] noBad(str) ==> result == str
modifies nothing

func rdap.safePrint
ensures [C22 no newline, carriage return or NUL is left] noBad(result)
ensures [C22 other text is unchanged] noBad(v) ==> result == v
modifies nothing

func (*rdap.Printer).indent
requires okP(this)
ensures [C22 the indentation cannot break a line] noBad(result)
ensures [C22 the configured character times the configured size times the depth] 0 < this.IndentChar && this.IndentChar < 128 && indentLevel * this.IndentSize < 9223372036854775808 ==> result == uf("strings.Repeat#0", "string", chr(this.IndentChar), indentLevel * this.IndentSize)
modifies nothing

func (*rdap.Printer).printHeading
requires okP(this)
letold N0 = g.outN
ensures [C22 one whole line] g.outN == N0 + 1 && isLine(g.out[N0])
ensures forallk(q, "int", q != N0 ==> g.out[q] == old(g.out[q]))
modifies g.outN, g.out, g.outTo

func (*rdap.Printer).printValue
requires okP(this)
letold N0 = g.outN
ensures [C22 an empty value is not printed] value == "" ==> g.outN == N0
ensures [C22 one whole line] value != "" ==> g.outN == N0 + 1 && isLine(g.out[N0])
ensures forallk(q, "int", q != N0 || value == "" ==> g.out[q] == old(g.out[q]))
modifies g.outN, g.out, g.outTo

func (*rdap.Printer).printLink
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printUnknowns
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printUnknown
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printPublicID
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printVariantName
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printVariant
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printIPAddressSet
requires okP(this) && s != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printKeyData
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printDSData
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printSecureDNS
requires okP(this) && s != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printEvent
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 brief output omits events] this.BriefOutput ==> g.outN == N0
modifies g.outN, g.out, g.outTo
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printNotice
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
set g.shown["notice"] := g.shown["notice"] + 1
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures g.shown["notice"] == SH["notice"] + 1
ensures forallk(q, "string", q != "notice" ==> g.shown[q] == SH[q])
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printRemark
requires okP(this)
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
set g.shown["remark"] := g.shown["remark"] + 1
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures g.shown["remark"] == SH["remark"] + 1
ensures forallk(q, "string", q != "remark" ==> g.shown[q] == SH[q])
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]

func (*rdap.Printer).printDomain
requires okP(this) && d != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(d.Notices)
letold NR = len(d.Remarks)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures [C23 remarks are printed] !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i
loop {p :*Printer} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
loop {i int} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + i

func (*rdap.Printer).printAutnum
requires okP(this) && a != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(a.Notices)
letold NR = len(a.Remarks)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures [C23 remarks are printed] !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i
loop {p :*Printer} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
loop {i int} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + i

func (*rdap.Printer).printNameserver
requires okP(this) && n != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(n.Notices)
letold NR = len(n.Remarks)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures [C23 remarks are printed] !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i
loop {p :*Printer} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
loop {i int} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + i

func (*rdap.Printer).printEntity
option assume-pre:(*rdap.VCardProperty).Values
requires okP(this) && e != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(e.Notices)
letold NR = len(e.Remarks)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures [C23 remarks are printed] !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i
loop {p :*Printer} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
loop {i int} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + i

func (*rdap.Printer).printIPNetwork
requires okP(this) && n != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(n.Notices)
letold NR = len(n.Remarks)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures [C23 remarks are printed] !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i
loop {p :*Printer} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + NR
loop {i int} !(BR || OR) ==> g.shown["remark"] >= SH["remark"] + i

func (*rdap.Printer).printHelp
requires okP(this) && h != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(h.Notices)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures g.shown["remark"] >= SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i

func (*rdap.Printer).printError
requires okP(this) && e != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(e.Notices)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures g.shown["remark"] >= SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i

func (*rdap.Printer).printNameserverSearchResults
requires okP(this) && sr != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(sr.Notices)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures g.shown["remark"] >= SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i

func (*rdap.Printer).printEntitySearchResults
requires okP(this) && sr != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(sr.Notices)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures g.shown["remark"] >= SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i

func (*rdap.Printer).printDomainSearchResults
requires okP(this) && sr != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
letold NN = len(sr.Notices)
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
ensures [C23 notices are printed] !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
ensures g.shown["remark"] >= SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown
loop {p :*Printer} g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
loop {p :*Printer} N < N0 ==> g.out[N] == OUT[N]
loop {p :*Printer} (BR || ON) ==> g.shown["notice"] == SH["notice"]
loop {p :*Printer} (BR || OR) ==> g.shown["remark"] == SH["remark"]
loop {p :*Printer} g.shown["notice"] >= SH["notice"]
loop {p :*Printer} g.shown["remark"] >= SH["remark"]
loop {p :*Printer} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + NN
loop {i int} !(BR || ON) ==> g.shown["notice"] >= SH["notice"] + i

func (*rdap.Printer).printObject
requires okP(this)
requires is(obj, "*Domain") ==> as(obj, "*Domain") != nil
requires is(obj, "*Entity") ==> as(obj, "*Entity") != nil
requires is(obj, "*Nameserver") ==> as(obj, "*Nameserver") != nil
requires is(obj, "*Autnum") ==> as(obj, "*Autnum") != nil
requires is(obj, "*IPNetwork") ==> as(obj, "*IPNetwork") != nil
requires is(obj, "*Help") ==> as(obj, "*Help") != nil
requires is(obj, "*Error") ==> as(obj, "*Error") != nil
requires is(obj, "*DomainSearchResults") ==> as(obj, "*DomainSearchResults") != nil
requires is(obj, "*EntitySearchResults") ==> as(obj, "*EntitySearchResults") != nil
requires is(obj, "*NameserverSearchResults") ==> as(obj, "*NameserverSearchResults") != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
modifies g.outN, g.out, g.outTo, g.shown

func (*rdap.Printer).Print
requires this != nil && (noBad(chr(this.IndentChar)) || this.IndentChar == 0)
requires is(obj, "*Domain") ==> as(obj, "*Domain") != nil
requires is(obj, "*Entity") ==> as(obj, "*Entity") != nil
requires is(obj, "*Nameserver") ==> as(obj, "*Nameserver") != nil
requires is(obj, "*Autnum") ==> as(obj, "*Autnum") != nil
requires is(obj, "*IPNetwork") ==> as(obj, "*IPNetwork") != nil
requires is(obj, "*Help") ==> as(obj, "*Help") != nil
requires is(obj, "*Error") ==> as(obj, "*Error") != nil
requires is(obj, "*DomainSearchResults") ==> as(obj, "*DomainSearchResults") != nil
requires is(obj, "*EntitySearchResults") ==> as(obj, "*EntitySearchResults") != nil
requires is(obj, "*NameserverSearchResults") ==> as(obj, "*NameserverSearchResults") != nil
ghost N int
letold N0 = g.outN
letold OUT = g.out
letold SH = g.shown
letold BR = this.BriefOutput
letold ON = this.OmitNotices
letold OR = this.OmitRemarks
ensures [C22 only whole lines are written] g.outN >= N0 && (N0 <= N && N < g.outN ==> isLine(g.out[N]))
ensures [C22 earlier output stays] N < N0 ==> g.out[N] == OUT[N]
ensures [C23 notices are omitted] (BR || ON) ==> g.shown["notice"] == SH["notice"]
ensures [C23 remarks are omitted] (BR || OR) ==> g.shown["remark"] == SH["remark"]
modifies this.Writer, this.IndentChar, this.IndentSize, g.outN, g.out, g.outTo, g.shown
