#!/usr/bin/env python3
"""Regenerates properties.jsonl (the prose lives here so that it is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

PW="pfp/src/passwords.rs"; ST="pfp/src/storage.rs"; CR="pfp/src/crypto.rs"; FI="pfp/src/storage_io/file.rs"; RC="pfp/src/recovery_codes.rs"

p("C01","A successful change is on disk before success is reported",
 "Whenever an operation that changes the password storage (set primary password, add, store, remove, annotate, alias, un-alias, drop sites) reports success, the change it describes has been made and everything changed has been written to the storage file without error. No success is ever reported for a change that only exists in memory or that was never made.",
 ["inputs","histories","fault_sequences"],"every mutating operation, every argument, every prior content, every I/O outcome",
 "The tests flush to an in-memory map or a healthy temp file and look at a few arguments; no test makes a write fail or checks every early return of every mutator.",
 [PW,ST,FI],[("every mutator ends by flushing and returns the flush result",PW),("file flush propagates serialisation, mkdir and write errors",FI)],observe=["storage file content after Ok"])

p("C02","A failed operation leaves the storage file untouched",
 "If an operation returns an error to its caller, it has not successfully written the storage file: file writes happen only after every check and every in-memory change of the operation has succeeded. An error of the storage layer is never dropped, replaced by success or turned into a default value.",
 ["inputs","histories","fault_sequences"],"every operation, argument and failing step",
 "Tests check a few error variants, never the file after each failing path and never failures of the I/O layer.",
 [PW,ST,FI],[("flush is the last step; all results use ?",PW)],observe=["storage file content after Err"])

p("C03","Locked passwords give nothing away",
 "While the passwords are locked, no operation that needs password data returns any or changes any; each one reports that the passwords are locked (the two listing operations refuse by panicking) before touching password data. Locking forgets the encryption key, the HMAC secret and the primary password, all three, and dropping the object locks it.",
 ["inputs","histories"],"every operation on every locked state, every argument; every history of unlock/lock",
 "The unit tests call some operations on a locked instance once; they cannot show every operation on every path checks first or that nothing else keeps the secrets.",
 [PW],[("ok_or(PasswordsLocked)? first in each operation",PW),("lock() clears three fields, Drop calls lock()",PW)],
 state=[("key/hmac_secret/primary_password","Some only while unlocked",PW)])

p("C04","Unlocking requires the right primary password and is all-or-nothing",
 "The object becomes unlocked only by a successful reset or by an unlock whose password-derived key has decrypted and authenticated the stored HMAC secret; the state then holds exactly the key, HMAC secret and primary password that belong together. If unlocking fails, the object's lock state is what it was before; if a reset fails, the object is left locked or unchanged, never holding secrets that do not belong to the storage it serves.",
 ["inputs","histories","fault_sequences"],"every password, every storage content, every failing step",
 "Tests try one wrong password on one storage; the guarantee is about every failing path and every storage content.",
 [PW,ST],[("unlock(): get_hmac_secret(&key)? before assigning fields",PW),("reset(): fields assigned after clear and flush",PW)])

p("C05","Nothing readable is written to the storage",
 "Apart from the random salt, every value put into the storage is ciphertext produced by authenticated encryption under the password-derived key, and every storage key is either one of the two fixed names or a prefix followed by keyed hashes. Site names, user names, revisions, notes, passwords, key material and the primary password never reach the storage in any other form.",
 ["inputs","histories"],"every entry written by any operation for any argument",
 "Tests compare decrypted entries for a few fixed inputs; they do not show that no path writes anything else.",
 [ST,CR],[("Storage::set encrypts before io.set",ST),("keys built from get_digest",ST)])

p("C06","Fresh randomness for every nonce, salt and HMAC secret",
 "Every encryption draws a new 12-byte nonce, and every reset draws a new 16-byte salt and a new 32-byte HMAC secret, directly from the thread's cryptographically secure generator at the time of use; none is constant, derived from other data, truncated, cached or reused for a second message.",
 ["inputs","histories"],"every encryption and every reset in every history",
 "The unit tests replace the generator by a fixed sequence, so they cannot notice nonce reuse or a weak source in the production configuration.",
 [CR,PW],[("get_rng().gen() per call",CR),("reset(): two gen() calls",PW)])

p("C07","Stored data is used only after authentication",
 "Any password, notes, site or HMAC secret the library returns or acts on was obtained by decrypting a complete stored value with the authenticated cipher under the current key, and parsing exactly the decrypted bytes. A value that fails to decode, authenticate or parse yields an error or is skipped by listings; it is never used raw, decrypted without verification, or replaced by a made-up value.",
 ["inputs","histories"],"every storage content, including tampered ones, and every reading operation",
 "Tests use well-formed entries; tampering with each entry in each way is out of reach for samples.",
 [ST,CR],[("Storage::get: io.get -> decrypt_data -> from_slice",ST),("AES-256-GCM decrypt errors mapped to DecryptionFailure",CR)])

p("C08","Keys come from scrypt with the fixed cost over the exact password and salt",
 "The storage key is scrypt (N=2^15, r=8, p=1, 32 bytes) of the complete, unmodified primary password and the complete stored salt, each salt byte being encoded as the Unicode code point of the same number. The same function with the same cost derives generated passwords, and no key, password or salt reaches the function shortened, case-folded, trimmed or replaced.",
 ["inputs"],"every primary password and salt",
 "A handful of fixed vectors cannot exclude that long, non-ASCII or high-byte inputs are treated differently.",
 [CR,PW],[("derive_bits: scrypt::Params::new(15, 8, 1)",CR),("get_encryption_key: byte as char",PW)])

p("C09","A generated password depends on its parameters alone",
 "The value of a generated password is a deterministic function of the primary password and the entry's site, user name, revision, length and character sets, using the salt site NUL name, followed by NUL revision only if the revision is not empty. Notes, time, randomness, environment, file content order and the password storage's salt or keys never influence it.",
 ["inputs","histories"],"every parameter combination and every history before retrieval",
 "Tests check a few vectors; a dependence that only shows for other parameters or later histories is invisible to them.",
 [PW,CR,"pfp/src/storage_types/password.rs"],[("derive_password(primary, salt(), length, charset)",PW),("GeneratedPassword::salt",  "pfp/src/storage_types/password.rs")])

p("C10","Generated passwords use exactly the allowed character sets",
 "A generated password has exactly the requested length, contains only characters of the enabled sets, and, when it is at least as long as the number of enabled sets, contains at least one character of each. The sets are disjoint, contain only characters of their own class and omit the easily confused I, l, i, o, O, 0, 1 and quote, apostrophe, backslash characters; every character of an enabled set can be chosen.",
 ["inputs"],"every length, character-set combination and derived byte string",
 "Five fixed passwords in the tests cannot show inclusion for all byte strings and all 15 set combinations.",
 [CR],[("to_password: allowed = charset - seen when the rest is needed",CR),("CHARS_MAPPING tables",CR)])

p("C11","Every operation resolves site names the same way",
 "Adding, storing, retrieving, checking, annotating, listing and removing passwords all strip one leading 'www.' and then follow the alias recorded for that name, so that an entry created under any spelling of a site is found, changed and removed under every other. Alias queries, alias removal and the site being aliased strip 'www.' but are not themselves redirected.",
 ["inputs","histories"],"every operation, site spelling and alias table",
 "Tests exercise some operations with some spellings; agreement between all operations for all names is a universally quantified statement.",
 [PW,ST],[("storage.resolve_site / normalize_site at the top of each operation",PW)])

p("C12","One identity, one entry: storage keys are consistent and separated",
 "A password entry lives under 'site:' HMAC(site) ':' HMAC(site NUL name NUL revision) and a site entry under 'site:' HMAC(site), computed with the full HMAC-SHA256 keyed by the storage's secret, identically for writing, reading, checking, listing and removing. Revision '1' and the empty revision are the same identity everywhere; listing a site yields only entries under that site's prefix and listing sites yields only site entries.",
 ["inputs","histories"],"every site, name, revision and every operation pair",
 "Tests use a few identifiers; a disagreement between two operations for other identifiers, or a collision of two, would go unnoticed.",
 [ST,"pfp/src/storage_types/password.rs"],[("get_site_key/get_site_prefix/get_password_key",ST),("PasswordId::new maps revision 1 to empty","pfp/src/storage_types/password.rs")])

p("C13","Aliases never dangle into each other",
 "A site is made an alias only if it has no passwords and differs from its target, and the target recorded is the final site: if the given target is an alias, what it stands for; and sites that were aliases of the new alias are re-pointed to the same target. Hence no alias ever points to another alias or to itself, whatever the history.",
 ["inputs","histories"],"every history of alias, un-alias, add and remove",
 "Chains need particular orders of several alias commands; the tests run one order.",
 [PW,ST],[("set_alias: resolve target, SiteHasPasswords, AliasToSelf",PW)])

p("C14","Existing passwords are overwritten only with consent",
 "The add and add-stored commands replace an existing entry only if the user passed the assume-yes option or answered the overwrite question with yes; the default answer and a refusal leave the entry as it was and the command ends without storing anything. The existence check asks for the same domain, name and revision that are then written.",
 ["inputs","histories"],"every argument combination, answer and prior content",
 "Tests try yes, no and -y for one entry.",
 ["cli/src/processor/add.rs","cli/src/processor/add_stored.rs"],[("has() and question::confirm before set_generated/set_stored","cli/src/processor/add.rs")])

p("C15","Changing the primary password never discards data silently",
 "The set-primary command replaces a storage file that exists, readable or not, well-formed or not, only if the user passed assume-yes or answered the question with yes (default no). It sets only a password of at least 6 bytes that was entered twice identically, and any failed condition leaves the file as it was.",
 ["inputs","histories","fault_sequences"],"every prior file content, answer and pair of passwords",
 "Tests cover a valid prior file and one mismatch; unreadable, newer-format or corrupt files and boundary lengths are not covered.",
 ["cli/src/main.rs","cli/src/processor/set_primary.rs"],[("confirmation when the file exists","cli/src/main.rs"),("length and equality checks before reset","cli/src/processor/set_primary.rs")])

p("C16","Secrets are shown only where asked and never linger in output buffers",
 "Passwords, notes and the primary password are printed only by show, list with --show or --verbose (notes), and notes, only to standard output, and always through an unbuffered writer; with --qrcode, show makes a QR code of the same value and no text. They never reach standard error, error messages, panics, debug output, the shell history, formatted strings or any file.",
 ["inputs","histories"],"every command, argument and stored value",
 "Tests look for a few fixed secrets in the memory of a few runs; they cannot enumerate flows.",
 ["cli/src/processor/show.rs","cli/src/processor/list.rs","cli/src/processor/notes.rs","cli/src/processor/utils.rs"],[("io_streams::StreamWriter for secrets","cli/src/processor/show.rs")])

p("C17","Plaintext copies of secrets live in wiping containers",
 "Wherever the program itself makes an owned copy of secret bytes or text (typed input, decrypted data, derived keys, generated passwords, serialised entries, decoded recovery codes), that copy is moved into a container that wipes its memory when dropped, and is not left behind in an ordinary string or vector. Buffers holding secrets while they are filled are created with their final capacity or a fixed initial capacity.",
 ["inputs","histories"],"every secret and every operation",
 "The memory-scanning tests can only notice copies that survive undisturbed in a few runs with fixed secrets.",
 [CR,ST,RC,"cli/src/processor/utils.rs"],[("SecretString/SecretVec::new around every owned copy",CR)])

p("C18","Commands that only look never write",
 "Show, notes without --set, alias without target or --remove, and every query of the library never change or write the storage. List changes it in one way only: when the name filter is the default '*', it drops entries of listed sites for which no passwords exist.",
 ["inputs","histories"],"every argument and storage content",
 "The tests do not compare the storage before and after read-only commands.",
 [PW,"cli/src/processor"],[("&self receivers","pfp/src/passwords.rs"),("empty_sites only collected for name == \"*\"","cli/src/processor/list.rs")])

p("C19","Each command does what it was told and reports the outcome truthfully",
 "Every subcommand performs its own operation with the domain, name, revision and options the user gave, each in its role, and prints its success message only after that operation succeeded. Without --storage every command works on storage.json in the configuration folder of PfP. Any failure makes a one-shot invocation print the error on standard error and exit with a non-zero status; a successful one exits with status zero.",
 ["inputs","fault_sequences"],"every subcommand, option combination and failing step",
 "Tests run each command in a few successful and failing cases and check only output, not status.",
 ["cli/src/main.rs","cli/src/processor"],[("process_command dispatch","cli/src/processor/mod.rs"),("convert_error()? then println!","cli/src/processor")])

p("C20","Password generation options are honoured exactly",
 "Add stores a generated password with exactly the requested length, which must be 4 to 24, and exactly those character sets that were not switched off, and refuses when all four are switched off. Verbose listing shows the length and sets actually stored.",
 ["inputs"],"all 16 flag combinations and every length",
 "Tests try three of sixteen combinations and no length outside the range.",
 ["cli/src/processor/add.rs","cli/src/args.rs","cli/src/processor/list.rs"],[("charset.insert per flag","cli/src/processor/add.rs"),("validate_length","cli/src/args.rs")])

p("C21","What is written can be read back: writer and reader agree on the format",
 "For every record kind (storage file, site, generated password, stored password) the reader accepts every field the writer emits, under the same name and with the same meaning, and every field the writer may leave out has a default equal to the value it is left out for. A site with a field the reader does not know is refused, not read without it. The names are the ones of PfP's format 3: application, format, data, site, alias, type (generated2, stored), name, revision, length, lower, upper, number, symbol, password, notes.",
 ["inputs"],"every record value",
 "Fixed samples do not contain every optional-field and character-set combination, and cannot detect a rename made on both sides that breaks existing files.",
 ["pfp/src/storage_types","pfp/src/json",FI],[("serde derives","pfp/src/storage_types/password.rs"),("enumset_serialization!","pfp/src/json/macros.rs"),("secret_serialization","pfp/src/json/secret_serialization.rs")])

p("C22","Recovery codes are laid out and encoded the same way on both sides",
 "A recovery code is version 1, the 16-byte salt, the 12-byte nonce and the ciphertext with tag, cut into 14-byte blocks each followed by a checksum byte that depends on every byte of the block, on its line number and on whether it is the last; decoding takes the same pieces from the same places. The base-32 encoder and decoder are exact inverses on whole blocks over 32 distinct unambiguous characters.",
 ["inputs"],"every password, salt, nonce and code",
 "A few fixed codes cannot show that each of the 40 bits per group and each byte position agrees.",
 [RC,CR],[("generate/decode offsets",RC),("base32_encode/base32_decode/pearson_hash",CR)])

p("C23","A recovery code is accepted only if it is complete and verified",
 "Decoding succeeds only if every line's checksum matches, the last line is marked as last, nothing follows it, the version is supported and the authenticated decryption under the key derived from the embedded salt succeeds; the result is the decrypted text without its padding. Each failed condition is reported as its own error naming the offending line where there is one.",
 ["inputs"],"every text entered as a recovery code",
 "Tests try six malformed codes.",
 [RC],[("validate() and decode()",RC)])

p("C24","Malformed data is reported, not a crash",
 "No content of the storage file and no text entered as a recovery code can make the library panic: data of the wrong length, encoding or shape always results in an error value (or in the entry being left out of a listing).",
 ["inputs"],"every file content and every entered code",
 "Tests contain a dozen malformed files; a panic needs one particular wrong length or shape.",
 [CR,ST,RC,FI],[("length and format checks before slicing and conversion",CR)])

p("C25","The storage file is replaced atomically",
 "Saving never destroys the previous storage file before the new content is completely written: a crash, kill or full disk at any moment leaves either the complete old or the complete new file under the storage path. The folder the file belongs in is created first if it does not exist.",
 ["crash_points","fault_sequences"],"every moment of interruption and every failing write",
 "No test interrupts a save.",
 [FI],[("write to a temporary sibling, sync, rename",FI)])

p("C26","The interactive shell survives errors and keeps its restrictions",
 "In the shell, a failing or malformed command prints its error and the shell goes on, also when a prompt is answered with something that is not text; only exit or end of input leave it, and no prompt is repeated forever once the input has ended. Set-primary and a nested shell are refused, lock really locks the passwords, commands act on the storage the shell was started with, and the history contains nothing but the command lines typed at the prompt and is kept in a file of its own.",
 ["inputs","histories"],"every sequence of shell input lines",
 "One scripted session is tested.",
 ["cli/src/processor/shell.rs","cli/src/processor/utils.rs"],[("print_errors! continue","cli/src/processor/shell.rs"),("guards before process_command","cli/src/processor/shell.rs")])

p("C27","Only genuine storage files are accepted",
 "Loading succeeds only if the complete file is one JSON record with exactly three values: an application that is 'pfp', a format that is 3 and a data map from text to text, without unknown fields or trailing content; anything else is an error. What was loaded is saved back to the path it was loaded from.",
 ["inputs"],"every file content",
 "A dozen malformed files are tested.",
 [FI,"pfp/src/json/macros.rs"],[("const_serializable!, deny_unknown_fields",FI)])

p("C28","The storage map behaves as a map",
 "After storing a value under a key, reading that key returns exactly this value until it is overwritten, removed or everything is cleared; removing or reading an absent key reports a missing key and changes nothing; the key listing enumerates exactly the present keys; clearing removes all. Writing to one key affects no other.",
 ["inputs","histories"],"every history of map operations",
 "The file-backed map is never tested directly; the unit tests use a different, in-memory implementation.",
 [FI],[("HashMap delegation",FI)])

p("C29","Editing notes changes the notes and nothing else",
 "Setting the notes of a password rewrites that very entry with the same kind, identity, password value or generation parameters and the new notes, and works for generated and stored passwords alike. An absent entry is reported as missing and nothing is written.",
 ["inputs","histories"],"every entry and every notes text",
 "Tests annotate a few entries and compare a few fields.",
 [PW,"pfp/src/storage_types/password.rs"],[("get_password, set_notes, set_password",PW)])

p("C30","Displayed and entered values are exact",
 "A password or note shown is, byte for byte, the stored or generated value, and show puts the password on a line of its own; a password or note entered is stored exactly as typed up to the line end, apart from surrounding white space of passwords. No command truncates, re-cases, reorders or otherwise transforms the value.",
 ["inputs"],"every password and note",
 "Tests use short ASCII values.",
 ["cli/src/processor/show.rs","cli/src/processor/list.rs","cli/src/processor/notes.rs","cli/src/processor/utils.rs"],[("write_all(expose_secret().as_bytes())","cli/src/processor/show.rs")])

p("C31","Listings are complete and independent of hash order",
 "List prints every matching site in order of its name with its passwords in order of name and revision and its aliases in order, each once, regardless of the iteration order of the storage; a site is listed when its name or the site it is an alias of matches. The passwords shown under a site are those stored for exactly this site name, also when the stored name itself begins with www. 'No matching passwords' appears exactly if nothing was listed.",
 ["inputs","histories","schedules"],"every storage content, filter and hash seed",
 "Each test run sees one random hash order and a handful of sites.",
 ["cli/src/processor/list.rs",PW],[("sort_by_key, dedup_by_key","cli/src/processor/list.rs")])

p("C36","Recovery codes can be typed line by line",
 "add-stored --recovery asks for one line after the other and decodes what was accepted so far followed by the new line. After a checksum mismatch exactly the lines before the wrong one are kept and shown, after an incomplete code everything is kept, and in both cases the user can go on; any other error, an empty line and a refusal end the command with an error and nothing is stored. What is stored is what the complete code decodes to; when there is extra data behind a valid code it is the valid code alone, and only after the user agreed to ignore the rest.",
 ["inputs","histories"],"every sequence of lines and answers, every outcome of decoding",
 "The tests enter a handful of codes; which lines survive which mistake is a property of every pass of the dialog.",
 ["cli/src/processor/utils.rs","cli/src/processor/add_stored.rs",RC],[("prompt_recovery_code keeps the accepted lines","cli/src/processor/utils.rs"),("decode names the line that failed",RC)],observe=["entry stored, lines echoed"])

p("C32","Generated passwords agree with the PfP browser extension",
 "For every primary password and parameter combination, the generated password is the one the PfP browser extension generates.",
 ["inputs"],"every parameter combination",
 "Only a few vectors are tested.",
 [CR],[("to_password",CR)])

p("C33","No trace of secrets in process memory after exit or lock",
 "After a command has ended or the passwords were locked, no copy of any secret remains anywhere in the process's memory, including copies made by libraries and the allocator.",
 ["inputs","histories"],"every run",
 "Memory scanning tests sample a few runs.",
 ["cli/src/main.rs",CR],[("secrecy crate",CR)])

p("C34","Recovery codes round-trip for every password",
 "Decoding the recovery code generated for any password, with the same primary password and salt, yields that password.",
 ["inputs"],"every password, salt and nonce",
 "Three vectors are tested.",
 [RC],[("generate/decode",RC)])

p("C35","Concurrent instances do not lose each other's changes",
 "If two running instances change the same storage file, both changes are in the file afterwards.",
 ["schedules","histories"],"every interleaving of two instances",
 "No test runs two instances at once.",
 [FI],[("none",FI)])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
