#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
checks = {
 "C01": ("breadth-first model checking of the live server against a reference tree", MC,
   "Every write request of a fixed vocabulary in every reachable state up to a depth, deduplicated by complete database content, plus the fixpoint over directory contents; each state restarted from its file."),
 "C02": ("breadth-first model checking with every name queried in every scope in every state", MC,
   "All add/delete/rename histories over a small set of names up to a depth and to a fixpoint of directory contents; bounded by the vocabulary."),
 "C05": ("exhaustive enumeration of write requests over identities, name spellings and session histories", MC,
   "Every request kind, target spelling and bind history of a fixed vocabulary is sent to the live server; the complete directory content is compared before and after."),
 "C06": ("exhaustive enumeration of bind sequences on two connections against an identity model", MC,
   "All sequences up to a bound of successful and failing binds, reconnects and administrator changes on both backends; identity probed after every event."),
 "C07": ("exhaustive enumeration of configurations, client addresses, bind sequences and requests", "exploration",
   "Every combination of the switch, address, bind history and request of a fixed vocabulary on both backends."),
 "C08": ("exhaustive enumeration of stored password values and their damaged forms against near-miss passwords", "exploration",
   "All supported forms, every truncation and single-character deletion or substitution of each, on both backends, by LDAP bind."),
 "C09": ("exhaustive enumeration of password-change requests and request pairs, with every password tried on every entry afterwards", "exploration",
   "All sender, target, old and new password combinations, pairs of requests, and every truncation and single-byte change of request values on the live server."),
 "C10": ("exhaustive enumeration of filters, bases and scopes against direct evaluation", "exploration",
   "Every filter of a bounded grammar on a fixed directory, including unsupported kinds in every position; bounded by the vocabulary."),
 "C11": ("exhaustive enumeration of attribute lists and size limits on both backends", "exploration",
   "All lists up to three names and all limits around the number of matches; a complete search follows each."),
 "C12": ("exhaustive enumeration of filters, bases and scopes against an unindexed evaluation", "exploration",
   "Every filter of a bounded grammar over indexed and unindexed attributes on a fixed LDIF directory."),
 "C13": ("exhaustive exploration of event sequences around interleaved paged searches", MC,
   "All event sequences up to length 4 (thorough 5) and the full grid of match counts and page sizes on the live server; schedules inside the server are left to C04's scheduler part."),
 "C15": ("exhaustive enumeration of filters, attribute selections and identities against LDIF-backed servers with and without service users", "exploration",
   "every search of the stated vocabulary is sent to the real handler as ordinary user, service user and anonymous; results may not depend on or contain secret attributes"),
 "C18": ("exhaustive enumeration of name spellings against an independent name model, at the normalization function and through every LDAP operation", "exploration",
   "all values up to three (thorough four) characters over an alphabet of all special characters, in four positions of a name; values up to two (three) through LDAP under all pairs of spellings"),
 "C19": ("exhaustive enumeration of change sequences against a reference model of modify", "exploration",
   "every modify request of up to two (thorough three) changes of the vocabulary on five kinds of entries, sent to the real server and compared including value order"),
 "C16": ("exhaustive enumeration of structural changes of requests against the real server", "exploration",
   "Every single change of every element of every request kind, all truncations, all inputs up to two bytes, nested inputs, and pairs of changes; both backends and all session states, over in-memory connections."),
 "C17": ("exhaustive enumeration of request sequences against a reference for the stream of answers", "exploration",
   "All sequences of up to three requests over 27 kinds with all deliveries and id patterns; both backends and all session states, over in-memory connections."),
 "C21": ("exhaustive enumeration of LDIF file sets against a reference", "exploration",
   "All sequences of up to three pieces (quick: two, three at a stride) over 46 valid and broken records, in every division into files; the real server is started on each and read completely."),
 "C22": ("exhaustive enumeration of paths and file sizes against a reference", "exploration",
   "All paths of up to four components over ten names and six prefixes for eight ways to name the data, and all sizes around the boundaries; the real server is started on each."),
 "C20": ("Bounded exhaustive exploration of export and load: all short values and names over an awkward alphabet, all directories reached by short histories and all short LDIF files are taken through the built command and compared with a reference model.", "exploration",
   "Values and names up to 2 (3) letters over 20 letters, histories up to 2 (3) operations, files up to 2 (3) records; one process per step."),
 "C23": ("Bounded exhaustive exploration of generator inputs: every output is served by an LDIF server and compared with a reference model, with binds for each user.", "exploration",
   "One- and two-field deviations over field vocabularies and all inputs of up to 3 lines over a vocabulary of 9 (18) lines; one process per input."),
 "C03": ("Exhaustive crash and fault enumeration: the storage operations of the real server are recorded; every crash point with every subset of unsynced block writes is rebuilt, opened by a fresh server and compared with the states the reference model allows; and every storage operation is made to fail.", "fault_enumeration",
   "Histories of up to 2 (3) requests over 14 requests from 3 databases; all subsets up to 10 (12) pending blocks of 4 KiB."),
 "C04": ("Deviation-bounded schedule exploration of the real server with instrumented statements and locks; linearizability against a reference tree", MC,
   "All schedules of two or three connections that differ from running one request after the other by one switch at any statement or two at locks and connections (thorough: three, and two at any statements for the most conflicting pairs), for all pairs of 21 conflicting requests and longer combinations"),
 "C24": ("bounded exploration of connection and request histories against a counter model; deviation-bounded scheduling of connection, connecting and reading goroutines", MC,
   "The goroutine that accepts connections is not scheduled itself, only the goroutines of connections, of the connecting client and of the reader."),
 "C14": ("bounded exploration of reload histories against a model; deviation-bounded scheduling of a reload with searching and binding connections; signals to servers with real listeners", MC,
   "The goroutine that feeds results of a search to its connection is not scheduled itself; it reads a snapshot taken before."),
 "C25": ("complete enumeration of session states, ways to leave, signals, listener errors and accept scripts on servers with real listeners and on the command", "exploration",
   "Schedules within the server are those that occur; the order of signals, connections and errors is enumerated. Waiting is bounded by 20 seconds."),
}
na = {}
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "run.sh builds the checkers from /repo's working tree (Go replace directive or the built idmd command) and runs them; run.sh replay FILE re-executes a recorded violation. third_party/bbolt is the unmodified bbolt 1.4.0 with recording hooks around file writes and yields around its locks."}
for k, (t, l, n) in sorted(checks.items()):
    m["checks"].append({"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": t, "level": l, "level_note": n})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
