NOTES = {'C01': 'DNS lookup (suffix search over the real map) is a postcondition of DNSRegistry.Lookup.',
 'C02': 'Address lookup is a postcondition of NetRegistry.Lookup over sorted per-length lists; net.IPNet operations are modelled on the numeric '
        'value, IPv4-mapped IPv6 text aside.',
 'C03': 'AS lookup is a postcondition of ASNRegistry.Lookup and the constructor; ranges in the file are assumed not to overlap each other.',
 'C04': 'Object-tag lookup is a postcondition of ServiceProviderRegistry.Lookup.',
 'C05': 'parse and the four constructors: accepted shapes, kept order, errors instead of panics. encoding/json is an assumed contract.',
 'C06': 'Ghost download/cache events; the registry cache and the registry interface have assumed interface contracts whose implementations are '
        'proved in the other specs.',
 'C07': 'Ghost download and cache events over Client.Lookup/Download and helpers.',
 'C08': 'File system is volatile (another process may write between any two calls) with a modification time that never goes back.',
 'C09': 'Map and byte-slice ownership contracts on the memory cache.',
 'C14': 'Client.Do over ghost HTTP events; http.Client.Do, io.ReadAll and context are modelled.',
 'C15': 'As C14; deadlines are ghost context events.',
 'C16': 'As C14.',
 'C17': 'The reflect-driven decoder under contract over a model of reflect; rdap.structPlanFor (built once per type) is assumed.',
 'C18': 'As C17.',
 'C19': 'As C17.',
 'C20': 'jCard parser contracts over arbitrary JSON trees, recursive nesting included.',
 'C21': 'Lookup order, flattening and the telephone rules; which component an address accessor returns, and the general first-suitable telephone, '
        'are left to the bounded harness.',
 'C22': 'Every function of print.go is under contract: only whole lines are written (nothing from the server can start one), earlier output stays. '
        'strings.Map and strings.Repeat are modelled.',
 'C23': 'Proved: no panic, the object is not changed, omit options for notices and remarks, brief events, earlier output stays. That every field '
        'appears under its label in order is decided by the bounded harness.'}
# properties whose main function is outside the contracts: bounded, whatever else is proved
PARTIAL = {
 "C24": "Response.ToWhoisStyleResponse itself (its composition of the parts) is outside the engine's reach and only bounded; proved for all inputs: keys once in order of first use with non-empty values (add), the first entity with a role (findFirstEntity), the ten contact fields (addEntityFields).",
 "C25": "rdap.RunCLI is outside the engine's reach (kingpin, closures over flags) and only bounded; proved for all inputs: sandbox.IsFileInSandbox and sandbox.LoadFile accept exactly the three bundled names and read nothing for any other.",
}
