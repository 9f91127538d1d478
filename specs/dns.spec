package bootstrap

props C01

// K is a whole-label suffix of q (the empty name, the root, is one of every q)
define labelSuffix(q string, K string) bool = K == q || suffix(q, "." + K) || K == ""

func (*bootstrap.DNSRegistry).Lookup
ghost K string
requires this != nil && question != nil
letold q = tolower(trimsuffix(question.Query, "."))
ensures [C01 never fails] err == nil && result != nil && fresh(result)
ensures [C01 reports the normalised query] result.Query == q
ensures [C01 entry is a whole-label suffix] labelSuffix(q, result.Entry)
ensures [C01 URLs of that entry] has(this.dns, result.Entry) ==> result.URLs == this.dns[result.Entry]
ensures [C01 longest match wins] has(this.dns, K) && labelSuffix(q, K) ==> len(K) <= len(result.Entry) && has(this.dns, result.Entry)
ensures [C01 no URLs without a match] !has(this.dns, result.Entry) ==> len(result.URLs) == 0 && result.Entry == ""
modifies nothing
loop {s string} labelSuffix(q, s)
loop {s string} has(this.dns, K) && labelSuffix(q, K) ==> labelSuffix(s, K)
