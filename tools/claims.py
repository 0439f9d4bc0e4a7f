TB="Trusted: clang lowering, the VC generator, z3, khash contracts. "
CLAIMS={
"C10":"Trusted: clang lowering, the VC generator, z3. Every read_buffer.cpp operation satisfies its contract for all positions, contents and arguments; calls with arguments outside the precondition are the callers' obligation.",
"C01":TB+"Storage side: where a value's bytes live (extent, block or own file, exclusive) for every allocation and lookup.",
"C02":TB+"Lookups in db.cpp compare full length and bytes (NUL included) and no operation changes another name's entry.",
"C03":TB+"Block ownership invariant proved for every storage operation; ftruncate on the block file is assumed to succeed.",
"C04":TB+"Reported keys/size equal ghost totals defined by the stores that insert, resize and delete entries, after every storage operation.",
"C05":TB+"Doubly linked recency list invariant with a ghost recency clock, and frame conditions on recency, for every storage operation.",
"C06":TB+"Expiry in db.cpp: reads, sweep, frame of the expiry time.",
"C07":TB+"Readers never obtain an entry being written; writers keep it; eviction list holds completed values only.",
"C08":TB+"Storage of an entry in use is not freed, reused or changed by any storage operation.",
"C09":TB+"Memory safety and reference counting of every storage operation, checked against a ghost count of users.",
"C14":TB+"File side of allocation and deletion.",
"C16":TB+"Table and key deletion: everything named is unreachable, everything else is framed.",
"C11":TB+"Every byte a request handler looks at was received and is not yet consumed; every handler consumes exactly what it recognised; the pieces it hands on (method, names, header values) end at their delimiters.",
"C12":TB+"Every response handler sets pending output exactly (bytes and length), announced lengths equal what follows, and the next handler is in the right phase; only one pending text at a time.",
"C15":TB+"Listing handlers: every key of the requested window is sent once, completely, and nothing else.",
"C19":TB+"Nothing but expired values is removed below the limit; only completed values are evicted.",
}
NY="contracts for this property are not completed yet"
NA={f"C{i:02}":NY for i in range(1,24)}
NA["C21"]="crash atomicity of the two renames is a property of interrupted executions and of the file system's crash behaviour; pre/postcondition contracts say nothing about states between two system calls of one function"
NA["C22"]="asynchronous signal handlers interleave at instruction granularity; the sequential contracts used here do not describe interleavings"
NA["C23"]="liveness over whole event histories (eventually answered) is not expressible as partial-correctness contracts"
