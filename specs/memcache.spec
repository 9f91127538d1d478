package cache

props C09

// what the cache holds: contents and times are recorded for the same names, and
// no stored slice is one a caller could hold (each is allocated by Save)
func cache.NewMemoryCache
ghost N string
ensures result != nil && fresh(result) && result.cache != nil && result.mtime != nil
ensures [C09 absent until saved] !has(result.cache, N) && !has(result.mtime, N)
ensures [C09 default timeout is a day] result.Timeout == 86400000000000
modifies nothing

func (*cache.MemoryCache).SetTimeout
requires this != nil
ensures this.Timeout == timeout
modifies this.Timeout

func (*cache.MemoryCache).Save
ghost N string
requires this != nil && this.cache != nil && this.mtime != nil
letold doc = str(data)
ensures [C09 save succeeds] err == nil
ensures [C09 holds exactly the saved bytes] has(this.cache, filename) && str(this.cache[filename]) == doc
ensures [C09 holds its own copy] fresh(this.cache[filename])
ensures [C09 other files keep their bytes] N != filename ==> (has(this.cache, N) <==> old(has(this.cache, N))) && this.cache[N] == old(this.cache[N])
ensures [C09 other files keep their age] N != filename ==> (has(this.mtime, N) <==> old(has(this.mtime, N))) && this.mtime[N] == old(this.mtime[N])
ensures [C09 age counts from the save] has(this.mtime, filename) && old(g.now) <= this.mtime[filename] && this.mtime[filename] <= g.now
modifies this.cache[*], this.mtime[*], g.now

func (*cache.MemoryCache).Load
requires this != nil && this.cache != nil
ensures [C09 loads the saved bytes] has(this.cache, filename) ==> err == nil && str(result) == old(str(this.cache[filename]))
ensures [C09 hands out a copy] has(this.cache, filename) && len(result) > 0 ==> fresh(result)
ensures [C09 error if never saved] !has(this.cache, filename) ==> err != nil
modifies nothing

func (*cache.MemoryCache).State
requires this != nil && this.mtime != nil
let saved = has(this.mtime, filename)
let until = this.mtime[filename] + this.Timeout
ensures [C09 absent until saved] !saved <==> result == Absent
ensures [C09 good until the timeout elapses] saved ==> (result == Good || result == Expired) && (result == Expired ==> until < g.now) && (result == Good ==> old(g.now) <= until || g.now <= until)
modifies g.now
