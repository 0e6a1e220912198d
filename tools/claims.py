CLAIMS = {
    "C01": "Every obligation of the five diana functions proved for all arguments, including nil pointers and panic freedom; reciprocity and commutativity proved as a lemma over the contract. AppendTrigraphByteByKey assumes output and key are distinct slice variables.",
    "C02": "Proved for all inputs: what encodeCharacter writes, what changeKey writes and how decodeCharacter reads (contracts over the real functions and tables), the trigraph's reciprocity, and a lemma over these contracts that decoding what was written for one character gives that character and the encoder's state. The composition over a whole message is a bounded stand-in. Facts about package unicode are checked for every rune.",
    "C03": "Proved for all inputs: Encipher takes for each chunk a key of its own that was neither used nor compromised, marks exactly these and no other (ghost stack of chunk keys with its inverse), EnrichWithKey takes the key the caller named only if it exists, has the right size and is neither used nor compromised, otherwise the first suitable one; FindKey, GetKey. Assumes unique key ids in canonical form and no storage shared between keys and the message. The bounded stand-in cross-checks the real function.",
    "C04": "Proved for all inputs: whenever Encipher fails, on every failing path, every key's used flag is as before, no other field of a key is written, and the message carries no ciphertext of this call; MarkKeyUsed changes only the named key's flag; GetKey changes nothing. Assumes unique key ids in canonical form and no shared storage. The bounded stand-in cross-checks the real function.",
    "C06": "Proved for all inputs: Encipher's ciphertext is A-Z only; everything the coding functions write is A-Z, the key announcement is Y and the id, padding, and the trigraph of letters is a letter. That the length is a multiple of the group size and the order and limits of the parts is a bounded stand-in.",
    "C07": "Proved for all inputs: encodeCharacter succeeds exactly on codable characters and refuses every other one; encodeCharacter, changeKey, pad, EnrichWithKey and Encipher never panic (Encipher and EnrichWithKey: for stores with unique canonical ids and no shared storage). That Encipher succeeds when enough keys are there is a bounded stand-in.",
    "C08": "Proved for all inputs: decodeCharacter never panics and its every state change (with gotoTable, toggleCase, toggleBinary and nextTable). Decipher and TryDecipherPlainText: no panic, on failure no key changes, on success exactly the keys pushed (the message key and each announced one) are marked, a failing or dry-run TryDecipherPlainText leaves text, ciphertext and key id as they were. That the announced ids are those in the traffic, letter by letter, is a bounded stand-in as well.",
    "C05": "Proved for all inputs: FindKey returns the first suitable key of the store, or none when there is none, and changes nothing (with EqualRunes, EqualRunesFold and AllNeedlesInHaystack under contract). That Encipher takes its keys from FindKey for the message's recipients is a bounded stand-in.",
    "C09": "Proved for all inputs: NewKey and GenerateKeys (how many keys, sizes, fields, every letter and id character its own draw below 26 at its own position of the random stream, ids unlike every other id, keepers exactly the vetted words without the own call-sign, existing keys unchanged), with ContainsKeyId, RemoveKeeper, VettedKeepers and the crand functions. Trusted: math/rand's Intn draws uniformly from its source, crypto/rand, math.Ceil; floats are treated as reals, integers do not overflow.",
    "C11": "Proved for all stores, filters and option lists: ExportKeys gives exactly the accepted keys in order, each field equal and in storage of its own, the same settings and call-sign, no messages, and changes nothing in the original; RuneCopy and ByteCopy; every Option the package can make is held to the contract of the Option type. The filter and the options are pure functions of the key and the instance they are given.",
    "C10": "Proved for all inputs: DeleteKey and DeleteMessage remove at most one item per id (the removed items, their order and the ids that named them are given by ghost permutations), wipe each removed item, keep every other item with all its fields and contents, and report the number; DeleteKeyByString and DeleteMessageByString likewise; MarkKeyUsed and GetKey. Assumes that no two items share storage (an ownership map over storage blocks). Deletion by summary line is a bounded stand-in.",
    "C13": "Proved for all inputs and every aliasing of the slices involved: the rune and byte wiping functions, wiping of keys, messages, chunks and the whole instance (Wipe and Close), with the random source failing at any point. encoding/binary.Read is trusted: on success it fills the slice with the generator's next values, on an error it may leave anything. The instance's write frame is coarse (any rune or byte memory).",
    "C14": "Proved for all inputs, key and salt states: the three password functions, SetPFKFromString, SetSaltFromString and (through drivers that apply the returned option) WithPFK, WithSalt, WithPFKString and WithSaltString. pbkdf2.Key, hex.DecodeString and the password validator are trusted. Assumes that the password buffer is not itself the instance's salt or key.",
    "C15": "Proved for Save and Load, for all stores, keys, file situations and results of the layers: what is encoded, the layering, cipher, nonce mode and key, the order in which layers are finished, that success means every step succeeded, that nothing is opened for writing without permission or a 32-byte key, and which fields Load sets from what. The layers themselves (gob, gzip, the nacl stream, os, the terminal and the survey prompt) are trusted through the ghost contracts in contracts/files.vc; that they really restore what was stored and reject tampering is a bounded stand-in that saves, damages and loads real files.",
    "C16": "Proved over the whole program: every call that creates a file or changes its mode (found anew in the current source, in whatever function it is) is made with a mode without access for group and others; functions that make such calls are executed with arbitrary memory and arbitrary results of all other calls. The list of file-creating functions is the assumption (os, syscall, gofpdf, os/exec), and that pdf output goes through the opened file. An existing file keeps its mode.",
    "C17": "Proved for all inputs: groups and the four exported methods that group key letters and ciphertext: position of every letter, every separator, total length, line length in block form (whenever a group fits), refusals, panic freedom, and that the letters are not changed. math.Ceil is trusted and floats are treated as reals (they only size the buffer); line breaks are one character, as on Linux.",
    "C18": "Proved for all inputs: the rune and list comparison functions, key expiry and validity, the option-splitting functions (every word found, none invented), the flag mapping in getOptions, and the key and message selection closures of the command line against the option semantics. strings.FieldsFunc, time comparison and the cli package are trusted; the clock is constant during one selection. The handing over of list-valued options and of the closure to the listing is a bounded stand-in.",
    "C20": "Proved for all inputs, with ParseRadiogram giving whatever the patterns match: NewTextMessage files exactly one message on success and none on failure, keeps every earlier message, files what it returns under an id no other message has, marks no key when it fails, refuses a key id of the wrong size, enciphers outgoing messages under the key id given, addresses incoming messages, and marks keys for an incoming message exactly when it was deciphered; NewUniqueMessageId, ContainsMessageId, ParseRadiogram, VettedKeepers and the whole of Encipher, Decipher and TryDecipherPlainText under contract with it. Assumes unique key ids in canonical form. What regexp matches is not specified; that undeciphered text stays as it was parsed, that traffic for a known key is deciphered and that recipients are the parsed ones is a bounded stand-in.",
}
NA = {
    "C21": "parsing is delegated to Go regular expressions (leftmost-first alternatives over four patterns); no contract within the solvers' reach expresses which submatches regexp returns, so the property cannot be decided deductively here",
    "C12": "ImportKeys works on what gob, gzip and the encrypted stream restore from a file into a second instance, asks the user in between, and copies and deletes key by key; the functions under it are under contract (DeleteKey for C10, ContainsKeyId and RemoveKeeper for C09, Load for C15, RuneCopy for C11) but no contract for its own loop - which keys are skipped, replaced and added over a key list that is itself rewritten - was discharged in the time available, so the property is not claimed",
    "C19": "the lines are made by fmt, strings and text justification over column widths computed in loops; the order and choice of lines would be within reach, the text of a line is what fmt's verbs print, which has no contract here; not brought under contract in the time available, so not claimed",
    "C22": "a property of goroutine schedules; the sequential contracts of this family are silent on interleavings and there is no concurrent separation logic verifier for Go here",
}
