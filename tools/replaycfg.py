# property -> [(package directory, harness files under /verif/replay, -run pattern)]
R = "root_common.go"
CFG = {
    "C01": [("diana", ["diana_c01.go"], "^TestReplayC01$")],
    **{c: [(".", [R, "root_store.go", "root_cipher.go"], "^TestReplay%s$" % c)] for c in ("C02", "C03", "C04", "C05", "C06", "C07", "C08")},
    "C09": [(".", [R, "root_c09.go"], "^TestReplayC09$")],
    "C10": [(".", [R, "root_store.go", "root_c10.go"], "^TestReplayC10$")],
    "C11": [(".", [R, "root_store.go", "root_c10.go", "root_c11.go"], "^TestReplayC11$")],
    "C13": [(".", [R, "root_c13.go"], "^TestReplayC13$")],
    "C14": [(".", [R, "root_c14.go"], "^TestReplayC14$")],
    "C15": [(".", [R, "root_c13.go", "root_c15.go"], "^TestReplayC15$")],
    "C16": [(".", [R, "root_c13.go", "root_c15.go", "root_c16.go"], "^TestReplayC16$")],
    "C17": [(".", [R, "root_c17.go"], "^TestReplayC17$")],
    "C20": [(".", [R, "root_store.go", "root_c20.go"], "^TestReplayC20$")],
    "C18": [(".", [R, "root_c18.go"], "^TestReplayC18$"), ("cmd/krypto431", ["cmd_c18.go"], "^TestReplayC18Cmd$")],
}

# property -> [(package directory, harness files, -run pattern, functions, bound)]: run on every check
def cipher(c, what):
    return [(".", [R, "root_store.go", "root_cipher.go"], "^TestReplay%s$" % c, [what], "random stores of at most 8 keys, messages over the whole alphabet and beyond it, for about 13 s")]


BOUNDED = {
    "C02": cipher("C02", "Encipher, Decipher and TryDecipherPlainText: that the proved per-character steps compose over a whole message and its key changes"),
    "C03": cipher("C03", "Encipher: cross-check of the proved contract, and stores whose ids are not canonical"),
    "C04": cipher("C04", "Encipher: cross-check of the proved contract (that failing paths release), and stores whose ids are not canonical"),
    "C06": cipher("C06", "Encipher: that the parts are enciphered in order within their keys and padded to whole groups"),
    "C07": cipher("C07", "Encipher: success when enough keys are there; panics in stores whose ids are not canonical"),
    "C08": cipher("C08", "Decipher and TryDecipherPlainText: cross-check of the proved contracts, and which ids the traffic announces"),
    "C05": cipher("C05", "Encipher and EnrichWithKey: that every key they select themselves is what FindKey returned for the recipients"),
    "C10": [(".", [R, "root_store.go", "root_c10.go"], "^TestReplayC10$", ["DeleteKeysBySummaryString and DeleteMessagesBySummaryString; that the items DeleteKeyByString and DeleteMessageByString remove are the ones named in the text (their removal of exactly some items, wiped, with everything else unchanged, is proved)"],
             "random stores of at most 7 keys and 6 messages, at most 5 names, for about 8 s")],
    "C15": [(".", [R, "root_c13.go", "root_c15.go"], "^TestReplayC15$", ["gob, gzip and the encrypted stream under Save and Load: that a saved file restores the store, that a wrong key, damage and exchanged chunks give an error, and that write failures surface"],
             "random stores of at most 5 keys and 4 messages, random damage and file size limits, about 8 s")],
    "C20": [(".", [R, "root_store.go", "root_c20.go"], "^TestReplayC20$", ["NewTextMessage over what ParseRadiogram returns"], "random stores of at most 7 keys and 4 earlier messages, radiograms of at most 20 characters, for about 13 s")],
    "C18": [("cmd/krypto431", ["cmd_c18.go"], "^TestReplayC18Cmd$", ["main.keys and main.messages: handing the selection to the listing, list-valued options"],
             "up to 400 random option combinations over one store of 48 keys and 24 messages")],
}
