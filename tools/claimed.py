ESP = "path-sensitive typestate analysis over Go SSA (property simulation with value numbering, widening at loops)"
STORE = "All paths of the store operations on the SSA form, loops by fixpoint with widening; library calls by written models."
LISTS = "All paths of the store operations on the SSA form; child lists element by element up to three elements (k-limited list abstraction); library calls by written models."
FRONT = "All paths of the accept loop and connection loop on the SSA form; backends are arbitrary."
BACK = "All paths of the bind and search operations of both backends and the LDIF middleware on the SSA form, loops by fixpoint with widening; library calls by written models."
FLOWT = "interprocedural forward data-flow (value escape) analysis over Go SSA"
FLOWL = "All functions of the repository on the SSA form, context-insensitive; library calls by written summaries."
DECODE = "All paths of the request handlers on the SSA form for request packets with up to ten elements and lists of up to three elements (k-limited list abstraction)."
LOAD = "All paths of loading and reloading LDIF data on the SSA form with at most one failing step; folders of two files of up to two lines, data of up to two records with up to three attributes (k-limited list abstraction)."
CMDS = "All paths of the command functions on the SSA form with at most one failing step; inputs of up to two lines, loops unrolled up to four times over lists of known length; flags, files and the password library by written models."
SERVE = "All paths of the serve command and of the goroutines it starts on the SSA form with at most one failing step; flags and network by written models."
SEARCH = "All paths of the search operation of the front end, of the LDIF backend and of the database backend on the SSA form for up to three entries, two attributes, two values, two requested attributes, size limits up to two and trees of two levels (k-limited list abstraction); filter and scope by the results C19 decides."
CLAIMED = [
 ("C01", ESP, STORE),
 ("C02", ESP, FRONT),
 ("C03", ESP, STORE),
 ("C04", ESP, FRONT),
 ("C05", ESP, BACK),
 ("C06", ESP, "All paths of password verification on the SSA form; hash functions by written models."),
 ("C07", ESP, BACK),
 ("C08", ESP + "; " + FLOWT, LOAD),
 ("C09", ESP, DECODE),
 ("C10", FLOWT + "; " + ESP + " for the request handlers and error texts", FLOWL),
 ("C11", ESP, STORE),
 ("C12", ESP, STORE),
 ("C13", ESP, LISTS),
 ("C14", ESP, STORE),
 ("C15", ESP, LISTS),
 ("C16", ESP, STORE),
 ("C17", ESP + " against a reference application of the changes", "All paths of applying a modify request on the SSA form for up to three changes with up to two values, entries of up to two attributes with up to two values and names of up to two parts (k-limited list abstraction), and all paths of the database operation."),
 ("C18", ESP, SEARCH),
 ("C19", ESP + " against a reference evaluation of the filter in three-valued logic", "All paths of the filter and scope evaluation on the SSA form for every filter type, filters of up to three elements, and entries of up to two attributes with up to two values (k-limited list abstraction); nested filters by induction; text comparisons by written models."),
 ("C20", ESP + " with propositional coverage of the filter by the index lookups", "All paths of an LDIF search and its goroutine on the SSA form for 56 filter trees of up to four leaves and four levels; all paths of building and asking the index for up to three entries with up to two values (k-limited list abstraction); the radix and suffix trees by written models."),
 ("C21", ESP, LOAD),
 ("C22", ESP, LOAD),
 ("C23", ESP, BACK),
 ("C24", ESP, FRONT),
 ("C25", ESP + "; call-graph reachability for process exits", FRONT),
 ("C26", ESP, FRONT),
 ("C27", ESP + " with lock-set tracking", FRONT),
 ("C28", ESP, "All paths of an LDIF search and of the goroutine it starts on the SSA form, loops by fixpoint with widening; each side is analysed for arbitrary behaviour of the other."),
 ("C29", ESP, "All paths of every template function and of the LDIF constructor on the SSA form; file access by written models."),
 ("C30", ESP, SERVE),
 ("C31", ESP, SERVE),
 ("C32", ESP, CMDS),
 ("C33", ESP, CMDS),
 ("C34", FLOWT, FLOWL),
 ("C35", ESP + "; lint for file changes", "All paths of the write operations of the LDIF backends and of the export command on the SSA form; the database by written models."),
 ("C36", ESP + "; import lint", "The generator unrolled for one and three characters, and all paths of an LDIF search, on the SSA form; the random source by written models."),
 ("C37", ESP + "; per-character value sets on every path", "Names of up to three components with up to two parts; one text of up to three characters, of which at most two are arbitrary bytes, all byte values of each decided; folding of letter case is assumed to return some text."),
 ("C38", ESP, DECODE),
 ("C39", ESP, FRONT),
 ("C40", "interprocedural constant propagation to the call sites of the open call over Go SSA", "All call sites in the repository."),
 ("C45", ESP, SEARCH),
 ("C46", ESP + " against a reference application of the changes", "All paths of the add, rename and password operations of the database backend on the SSA form for entries of up to three attributes with up to two values and names of up to two parts (k-limited list abstraction); encoding and name parsing by written models."),
]
