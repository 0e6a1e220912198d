#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line).
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

prop("C01","DIANA trigraph function is exact, total and reciprocal",
 "For letters x and y in A-Z the trigraph of x and y is the letter at position (25-x-y) mod 26, so it is commutative and applying it twice with the same key letter gives back the original letter, for bytes and runes alike; the zero key of a letter is that letter's self-trigraph. Any nil argument or any character outside A-Z yields an error and writes nothing, and no argument makes a trigraph function panic. Appending a trigraph with an indexed key appends exactly that one letter and advances the index by one on success, and on failure changes neither the output nor the index.",
 ["inputs"],"every pair of byte/rune values, every nil combination, every output slice, key slice and key index",
 "the diana tests compare a handful of letter pairs and a few bad inputs; the property is over all 2^64 rune pairs and every slice/index combination",
 ["diana/diana.go"],[("TrigraphByte / TrigraphRune","diana/diana.go"),("ZeroKeyByte / ZeroKeyRune","diana/diana.go"),("AppendTrigraphByteByKey","diana/diana.go")],
 ["return value and *writeTo of the exported diana functions"])

prop("C02","Enciphering then deciphering gives back the message",
 "When Encipher succeeds on a message, deciphering the resulting key id and ciphertext in any store that holds the same keys succeeds and yields the original plaintext exactly, whatever mixture of supported letters, digits, punctuation and upper/lower case it contains and however many keys the message needed.",
 ["inputs","histories"],"every plaintext over the supported alphabet, every group size and key length for which enciphering succeeds, every key store content, single- and multi-key messages",
 "TestEncipher does not exist (cipher_test.go is empty); tests could sample only a few plaintexts, while table, case and key-change state make the encoding history dependent",
 ["cipher.go","diana/diana.go"],[("encodeCharacter / decodeCharacter, codecState","cipher.go"),("changeKey, pad","cipher.go"),("Encipher","cipher.go"),("Decipher","cipher.go"),("CharacterTables","cipher.go")],
 ["Message.PlainText after Encipher and Decipher"],
 [("codecState","current table, case shift and key-change state of the codec","cipher.go")])

prop("C03","A key is used for at most one message and one chunk",
 "Encipher never enciphers with a key that was marked used or compromised beforehand, every key whose letters were used for a message is marked used when Encipher returns successfully, and no two chunks of a message share a key; hence no key letter ever enciphers two text letters. This holds both for automatically selected keys and for a key id the caller put on the message.",
 ["inputs","histories"],"every key store, every message (with or without a preset key id), every sequence of Encipher calls",
 "no test calls Encipher; key reuse needs a multi-chunk message or a sequence of messages and particular used/compromised flags to show",
 ["cipher.go"],[("EnrichWithKey","cipher.go"),("FindKey","cipher.go"),("Encipher key-change branch","cipher.go")],
 ["Key.Used, Key.Compromised before and after Message.Encipher"],
 [("Key.Used","key letters have been consumed","krypto431.go")])

prop("C04","A failed Encipher leaves nothing behind",
 "When Encipher returns an error every key in the store is exactly as it was before the call: same ids, letters, keepers and metadata, and no key the failed call took stays marked used. The message carries no partial ciphertext.",
 ["inputs","histories","fault_sequences"],"every message and key store for which Encipher fails at any point (no key, out of keys part-way, unsupported character, key too short)",
 "failure part-way through a multi-key message needs a specific amount of key material; no test exercises any failure of Encipher",
 ["cipher.go","krypto431.go"],[("Encipher release-keys defer","cipher.go"),("EnrichWithKey","cipher.go"),("Wipe","krypto431.go")],
 ["Krypto431.Keys and Message.CipherText after a failing Message.Encipher"])

prop("C05","Keys are chosen for exactly the message's recipients",
 "A key found for a message is the first key in the store that is unused, not compromised, has an id of the configured group size and has every recipient among its keepers; with no recipients it is the first such key without keepers. If no such key exists none is returned and finding a key never changes any key. All keys Encipher selects by itself satisfy this for the message's recipients.",
 ["inputs","histories"],"every key store, every recipient list, every group size",
 "selection is a conjunction over the whole store; tests never call FindKey",
 ["cipher.go","functions.go"],[("FindKey","cipher.go"),("AllNeedlesInHaystack","functions.go"),("EqualRunes","functions.go"),("EnrichWithKey","cipher.go")],
 ["pointer returned by FindKey; Message.KeyId after EnrichWithKey"])

prop("C06","Ciphertext is well-formed traffic within its keys",
 "Ciphertext produced by Encipher consists only of letters A-Z and its length is a multiple of the group size, so it fills whole groups. Each part of the message is enciphered with the letters of one key in order starting at its first letter and is never longer than that key; each non-final part announces the id of the key for the next part.",
 ["inputs","histories"],"every plaintext, group size, key length and store for which Encipher succeeds",
 "length arithmetic over pads, table switches and key changes: only exact lengths trigger the boundary cases, and no test enciphers anything",
 ["cipher.go"],[("Encipher","cipher.go"),("pad","cipher.go"),("changeKey","cipher.go")],
 ["Message.CipherText, Message.KeyId after Encipher"])

prop("C07","Encipher never panics and refuses what it cannot represent",
 "Encipher returns normally for every message and key store: a character outside the supported alphabet gives an error rather than a panic or a silently different character, as does a missing key. If the text uses only supported characters and the store holds enough suitable keys long enough to carry a key change and the character before it, it succeeds.",
 ["inputs"],"every rune sequence as plaintext (any Unicode, any invalid rune), every store",
 "an input-total claim over all 2^32 runes per position and all lengths; tests never encipher",
 ["cipher.go"],[("encodeCharacter","cipher.go"),("Encipher","cipher.go"),("key-change threshold","cipher.go")],
 ["error result of Message.Encipher"])

prop("C08","Deciphering arbitrary traffic is safe and marks keys only on success",
 "Decipher and TryDecipherPlainText never panic on any ciphertext, key id or key store. If deciphering fails no key changes at all; if it succeeds exactly the keys whose ids occur as the message key and its announced key changes are marked used and nothing else in the store changes. TryDecipherPlainText that fails, or is run as a dry run, leaves the message's plaintext, ciphertext and key id as they were.",
 ["inputs","histories"],"every ciphertext rune sequence, key id, key store content and dry-run flag",
 "hostile or garbled traffic is an unbounded input space; no test calls Decipher",
 ["cipher.go"],[("Decipher","cipher.go"),("TryDecipherPlainText","cipher.go"),("decodeCharacter","cipher.go"),("GetKey","cipher.go")],
 ["Krypto431.Keys, Message fields, error of Decipher / TryDecipherPlainText"])

prop("C09","Generated keys are fresh uniform random letters with unique ids",
 "A new key's letters and id are each independent draws of a uniform number below 26 from the cryptographic source mapped to A-Z, with as many letters as the key length rounded up to whole groups and an id of exactly one group. Its id differs from the id of every key already in the store, it starts unused and not compromised, its keepers are the named call-signs in upper case without the own call-sign, and generating n keys adds exactly n keys and leaves the existing ones alone.",
 ["inputs","histories"],"every group size and key length, keeper list, store content and random source output",
 "TestGenerateKeys looks at one default instance; that each letter is its own draw, and uniqueness against every store, is beyond sampling",
 ["keys.go","crand/crand.go","functions.go"],[("NewKey","keys.go"),("GenerateKeys","keys.go"),("ContainsKeyId","keys.go"),("VettedKeepers","functions.go"),("RemoveKeeper","keys.go"),("Intn","crand/crand.go")],
 ["Krypto431.Keys after GenerateKeys/NewKey"])

prop("C10","Deleting and marking touch exactly the named items",
 "Deleting keys or messages by id removes one item per named id that exists, wipes it, reports the number removed and leaves every other key and message with its content unchanged (order may change); ids that do not exist remove nothing. Marking a key used or unused changes that flag of that one key only, and reports an error without change when the id is unknown.",
 ["inputs","histories"],"every store, every list of ids (duplicates, unknown, lower case), every position including first and last",
 "swap-with-last deletion goes wrong only at particular positions or when slices are shared; no test deletes or marks",
 ["keys.go","messages.go","cipher.go"],[("DeleteKey","keys.go"),("DeleteMessage","messages.go"),("MarkKeyUsed","cipher.go"),("EqualRunesFold","functions.go")],
 ["Krypto431.Keys / Messages after the call and its return value"])

prop("C11","An export holds exactly the selected keys as an independent copy",
 "Exporting keys gives a new instance holding exactly the keys the filter accepts, in store order, with identical id, letters, keepers, dates, flags and comment, no messages, and the same settings and call-sign. The copy shares no key letters, ids, keepers, comments or secrets with the original: wiping or changing either leaves the other intact, and exporting changes nothing in the original.",
 ["inputs","histories"],"every store, every filter, every option list, every later mutation of either instance",
 "aliasing shows only when one side is later wiped; no test exports",
 ["persistence.go"],[("ExportKeys","persistence.go"),("RuneCopy / ByteCopy","functions.go")],
 ["Krypto431 returned by ExportKeys and the original afterwards"])

prop("C12","Importing adds selected keys without overwriting",
 "Importing keys adds exactly the keys of the file that the filter accepts, whose id has our group size, and whose id is not already in the store unless overwriting was requested, in which case the old key is replaced; the count reported is the number added. An imported key has identical id, letters, dates, flags and comment; its keepers are the exporter's minus our call-sign plus the exporting station's call-sign. Imported keys share no storage with each other or the incoming instance, and key ids stay unique.",
 ["inputs","histories"],"every receiving store and incoming file content, filter, overwrite setting",
 "needs two stores with overlapping ids and call-signs; no test imports",
 ["persistence.go","keys.go"],[("ImportKeys","persistence.go"),("AddKeeper / RemoveKeeper","keys.go"),("DeleteKey","keys.go"),("ContainsKeyId","keys.go")],
 ["Krypto431.Keys after ImportKeys"])

prop("C13","Wiping destroys every secret in memory",
 "Wiping a rune or byte slice overwrites every element of its backing storage up to its length, with random data or, when the random source fails, with zeroes, and drops the reference. Wiping a key, a message or an instance does this for every secret it holds: key letters, ids, keepers and comment; plaintext, binary, ciphertext, raw radiogram and key id; all keys and messages, the persistence key and the salt.",
 ["inputs","fault_sequences"],"every content and length (nil and empty included), every random source outcome",
 "that no element escapes is a universally quantified statement over memory the test no longer has a reference to; no test wipes",
 ["krypto431.go","crand/crand.go"],[("Wipe/RandomWipe/ZeroWipe families","krypto431.go"),("ReadRunes / Read","crand/crand.go")],
 ["aliases of the backing arrays after Wipe/Close"])

prop("C14","Password-derived and explicit file keys are handled exactly",
 "A persistence key derived from a password is PBKDF2-SHA256 of that password and the instance's salt with 310000 iterations and 32 bytes, and the password buffer is wiped whatever the outcome. Missing or short salts, hex that does not decode, and explicit keys that are not 32 bytes or salts under 32 bytes are refused: the Set… and Derive… methods return an error and leave the key and salt already set untouched, and the With… options, which cannot return an error, set none; a weak password is refused without setting a key when validation is requested.",
 ["inputs","configurations"],"every password, salt, hex string and previous state",
 "no test sets a key, salt or password",
 ["persistence.go","krypto431.go"],[("DerivePFKFromPassword(WithValidation)","persistence.go"),("SetPFKFromString / SetSaltFromString / SetPFKFromPassword","persistence.go"),("WithPFK / WithSalt (String)","krypto431.go")],
 ["GetPFK, GetSalt, error, password buffer"])

prop("C15","Save reports success only for a complete encrypted file",
 "Save returns success only if the whole store was encoded, compressed, encrypted under the instance's 32-byte key with a random nonce and every layer was flushed and closed without error; any failure of any layer is returned. It never overwrites an existing file without permission (an operator who declines the overwrite prompt gets no error, but nothing is written), a failed load gives no such permission, and without a valid 32-byte key it writes nothing and returns an error instead of panicking. Loading back such a file with the same key restores keys, messages, settings and call-sign, also values that are empty or zero; a wrong key, or encrypted content that was altered, gives an error rather than altered data.",
 ["inputs","fault_sequences","configurations"],"every store content, key length, existing-file situation, and every failing layer (open, encode, gzip close, cipher close, file close)",
 "write errors surfaced at close, and permission branches, need fault injection; no test saves or loads",
 ["persistence.go"],[("Save","persistence.go"),("Load","persistence.go")],
 ["error of Save/Load, the file written"])

prop("C16","Files with secrets are readable by their owner only",
 "Every file the program writes keys or messages to - the encrypted store and key or message output as text or PDF - is created with permissions that give group and others no access (a file that exists already keeps its mode), and no secret is written through any other file.",
 ["inputs","configurations"],"every output path and format",
 "file modes depend on every creation site; no test writes a file",
 ["persistence.go","print.go"],[("os.OpenFile modes in Save, KeysTextFile, MessagesTextFile, KeysPDF, MessagesPDF","persistence.go, print.go")],
 ["mode of the files created"])

prop("C17","Grouping letters only adds separators",
 "The grouped form of key letters or ciphertext contains exactly the original characters in order, with a separator (one space or one line break) after every full group except the last and nowhere else. In block form no line is longer than the configured number of columns, provided a group fits on a line. A nil input or non-positive group size is an error.",
 ["inputs"],"every character sequence, group size and column width",
 "off-by-one at group and line boundaries for particular lengths; no test formats groups",
 ["functions.go","keys.go","messages.go"],[("groups","functions.go"),("Key.Groups/GroupsBlock","keys.go"),("Message.Groups/GroupsBlock","messages.go")],
 ["rune slice returned by Groups and GroupsBlock"])

prop("C18","Selection by call-sign, id, flags and dates is exact",
 "Key and message selection on the command line selects exactly the items that satisfy every option given: keepers or recipients (all of them, or any with --or), senders, used, unused, compromised, expired, invalid (compromised or expired) and valid for at least n days (not compromised and not expiring within them); When ids are given they alone decide (any of them); --all selects everything. The underlying list matching (all, any, one of, with or without case) is exact set containment.",
 ["inputs","configurations"],"every combination of options and every key or message",
 "a dozen independent options give thousands of combinations; no test runs the command line",
 ["cmd/krypto431/keys.go","cmd/krypto431/messages.go","functions.go","keys.go"],[("filterFunction in keys()","cmd/krypto431/keys.go"),("filterFunction in messages()","cmd/krypto431/messages.go"),("AllNeedlesInHaystack, AnyNeedleInHaystack, AnyOfThem, EqualRunes(Fold)","functions.go"),("IsExpired / IsValid","keys.go")],
 ["which items are listed, exported, imported or printed"])

prop("C19","Listings contain every selected item once, in order",
 "The summary of keys or messages has one line per item the filter accepts, in store order, each starting with that item's id followed by a space, so that feeding summary lines to delete-by-summary removes exactly the items those lines describe. Text output contains each selected item once, in order. Listing, printing and formatting never panic and never change the stored keys, except that listing messages deciphers messages whose key has become available and marks those keys used.",
 ["inputs","histories"],"every store, filter, column width, keeper and comment length",
 "summary lines drive deletion; loops over selected items and padding are only exercised by hand",
 ["keys.go","messages.go","print.go","functions.go"],[("SummaryOfKeys","keys.go"),("SummaryOfMessages","messages.go"),("KeysAsText / MessagesAsText","print.go"),("withPadding, predictColumnSizes, ColumnSizes","functions.go"),("DeleteKeysBySummaryString / DeleteMessagesBySummaryString","keys.go, messages.go")],
 ["lines returned by SummaryOfKeys/SummaryOfMessages; KeysAsText output"])

prop("C20","A new message is filed once with its direction respected",
 "A radiogram sent from the own call-sign is enciphered - with the key id given, or an automatically chosen key - and filed exactly once, or an error is returned and nothing is filed; a wrong-size key id is refused. A radiogram from another station is filed exactly once, deciphered if it holds traffic for a known key and otherwise with its text unchanged, addressed to the own call-sign if it names no recipient. Message ids are unique in the store.",
 ["inputs","histories"],"every parsed radiogram, optional key id argument and store",
 "the outgoing path with a key id argument and the failure paths are never run by a test",
 ["messages.go","cipher.go"],[("NewTextMessage","messages.go"),("NewUniqueMessageId","messages.go"),("AddRecipient","messages.go"),("IsMyCall","messages.go")],
 ["Krypto431.Messages and the message returned by NewTextMessage"])

prop("C21","Radiogram headers are parsed as the message format describes",
 "For every radiogram in one of the documented formats the parsed recipients, sender, date-time group and text are the corresponding parts of the radiogram, with the trailing end-of-message mark removed.",
 ["inputs"],"every radiogram text in the documented formats",
 "four overlapping regular expressions with leftmost-first alternatives; no test parses a radiogram",
 ["messages.go"],[("ParseRadiogram","messages.go"),("MessageRegexpFull/Semi/Short/Mini","messages.go")],
 ["Message returned by ParseRadiogram"])

prop("C22","Concurrent users of the random source do not interfere",
 "Concurrent calls to the shared random source never race or return overlapping output: each draw is a separate read of the operating system's generator.",
 ["schedules"],"every interleaving of goroutines drawing random numbers",
 "a schedule property; tests run single goroutines",
 ["crand/crand.go"],[("cryptoRandSource mutex","crand/crand.go")],
 ["values returned by crand functions"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
