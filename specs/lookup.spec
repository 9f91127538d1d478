package bootstrap

props C04

func (*bootstrap.ServiceProviderRegistry).Lookup
requires this != nil && question != nil
let q = old(question.Query)
let tag = q[lastindex(q, "-")+1:]
let reg = contains(q, "-") && !suffix(q, "-") && has(old(this.services), tag)
ensures [C04 never fails] err == nil && result != nil && fresh(result)
ensures [C04 echoes the handle] result.Query == q
ensures [C04 registered tag] reg ==> result.URLs == old(this.services[tag]) && result.Entry == tag
ensures [C04 otherwise nothing] !reg ==> len(result.URLs) == 0 && result.Entry == ""
modifies nothing
