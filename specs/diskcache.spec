package cache

props C08

define cachePath(dir string, name string) string = uf("filepath.Join", "string", dir, name)

func (*cache.DiskCache).SetTimeout
requires this != nil
ensures this.Timeout == timeout
modifies this.Timeout

func (*cache.DiskCache).State
requires this != nil && this.lastLoadedModTime != nil
let p = cachePath(this.Dir, filename)
let mt = g.statMtime
let unexpired = mt > g.now - this.Timeout
let seen = has(this.lastLoadedModTime, filename) && mt <= this.lastLoadedModTime[filename]
ensures [C08 looks at the cached file] g.statN > old(g.statN) && g.statPath == p
ensures [C08 absent when it cannot be examined] !g.statOK <==> result == Absent
ensures [C08 expired when older than the timeout] g.statOK && !unexpired <==> result == Expired
ensures [C08 good when no newer than the copy last used] g.statOK && unexpired && seen <==> result == Good
ensures [C08 reload otherwise] g.statOK && unexpired && !seen <==> result == ShouldReload
modifies g.now, g.statN, g.statOK, g.statPath, g.statMtime, g.fsMtime, g.fsData

func (*cache.DiskCache).Load
ghost N string
requires this != nil && this.lastLoadedModTime != nil
let p = cachePath(this.Dir, filename)
ensures [C08 reads the cached file] err == nil ==> g.readN > old(g.readN) && g.readPath == p && str(result) == g.fsData[p]
// the time remembered is not later than the version that was read
ensures [C08 a change during the load is noticed later] err == nil ==> has(this.lastLoadedModTime, filename) && this.lastLoadedModTime[filename] <= g.readMtime && old(g.fsMtime)[p] <= this.lastLoadedModTime[filename]
ensures [C08 other files unaffected] N != filename || err != nil ==> (has(this.lastLoadedModTime, N) <==> old(has(this.lastLoadedModTime, N))) && this.lastLoadedModTime[N] == old(this.lastLoadedModTime[N])
ensures [C08 loading writes nothing] g.wrote == old(g.wrote)
ensures [C08 no data with an error] err != nil ==> len(result) == 0
modifies this.lastLoadedModTime[*], g.statN, g.statOK, g.statPath, g.statMtime, g.fsMtime, g.fsData, g.readN, g.readPath, g.readMtime

func (*cache.DiskCache).Save
ghost N string
requires this != nil && this.lastLoadedModTime != nil
letold p = cachePath(this.Dir, filename)
letold doc = str(data)
ensures [C08 writes exactly the bytes under the cache directory] err == nil ==> g.wrote == old(g.wrote) + 1 && g.wrotePath == p && g.wroteData == doc
ensures [C08 writes nothing else] g.wrote == old(g.wrote) || g.wrote == old(g.wrote) + 1 && g.wrotePath == p
ensures [C08 the saved copy counts as read] err == nil ==> has(this.lastLoadedModTime, filename) && this.lastLoadedModTime[filename] == g.statMtime && g.statPath == p && g.statN > old(g.statN)
ensures [C08 other files unaffected] N != filename || err != nil ==> (has(this.lastLoadedModTime, N) <==> old(has(this.lastLoadedModTime, N))) && this.lastLoadedModTime[N] == old(this.lastLoadedModTime[N])
ensures [C08 directory and timeout kept] this.Dir == old(this.Dir) && this.Timeout == old(this.Timeout)
modifies this.lastLoadedModTime[*], g.statN, g.statOK, g.statPath, g.statMtime, g.fsMtime, g.fsData, g.wrote, g.wrotePath, g.wroteData
