PROPS = [dict(
 id="M01", title="Generated accounts are the documented function of their names",
 statement="Expanding a list of upper-case names defines for each name a public 32-byte account in which every byte of the name is folded (xor) into its position modulo 32, so that different names of up to 32 bytes give different accounts. The generated name table maps each of these accounts to its own name and nothing else, and a list with a name that is not upper case is refused at compile time.",
 over=["inputs", "programs"], text="every list of identifiers: empty, one, many, short, longer than 32 bytes, with and without trailing comma",
 why="the one test expands two names and prints them",
 files=["macros/src/generate_accounts.rs", "macros/src/lib.rs"], mechanism=[("generate_accounts::macro_impl", "macros/src/generate_accounts.rs")], observe=["generated constants", "names()"],
 technique="property-based testing of programs: generated name lists expanded by the real macro, compiled, run and compared with a reference construction; failing lists shrunk",
 note="A thousand name lists per run; no proof. Trusts rustc.")]
