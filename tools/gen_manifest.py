#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below and properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the compiled MIR'
CLAIMS = {
 'C09': (AI + ' (intervals/linear relations over lengths, byte classes per position, Skolem position)', 'all texts, codes and flags; every path of ReplyLine::build'),
 'C10': (AI + ' (segment-sequence domain for the bytes written)', 'all reply lines, every order of partial writes'),
 'C12': (AI + ' plus enumeration of every construct that makes a reply code', 'every constant, constructor site and default method'),
 'C19': (AI + ' (linear relations over window bounds, induction over cuts)', 'all windows, cut bounds and buffers'),
 'C21': (AI + ' of a most general client over an unbounded tape; eleven case proofs on what one arbitrary position is to the transfer format', 'all inputs in all packets, all orders of polls'),
 'C22': (AI + ' of a most general client over an unbounded tape; eleven case proofs on what one arbitrary position is to the transfer format', 'all inputs in all packets, all orders of polls and completion'),
 'C23': (AI + ' of a most general client over an unbounded content tape; seven case proofs on what one arbitrary position is', 'all contents in all pieces, a sink that accepts, stalls or fails at any call'),
 'C24': (AI + ' of a most general client (ghost queue of items)', 'every sequence of push-back and poll over every stream'),
 'C25': (AI + ' of a most general client over an unbounded tape (segments of the tape, linear relations, one arbitrary observed line break)', 'all inputs in all packets'),
 'C27': ('call-graph analysis over MIR (strongly connected components, class-hierarchy for trait objects)', 'every function of smtp-message and smtp-server'),
 'C28': (AI + ' of every serialiser against an output that may fail at any write', 'every serialiser, every failing write'),
 'C31': ('unsafe-operation inventory and pin dataflow over HIR and MIR', 'every unsafe operation, pin projection and invariant-carrying type'),
}
C = AI + ' of a most general client of the session (unbounded input tape, any packets, any application decisions, a reply that may fail at any point)'
CLAIMS.update({
 'C01': (C + '; ghost protocol state (typestate) on the replies, send_reply and the greeting down to the sink', 'all inputs, applications and reply texts'),
 'C02': (C + '; typestate of the transaction at every hook call', 'all command sequences and decisions'),
 'C03': (C + '; ghost envelope compared by linear relations over sequences', 'all command sequences and decisions, any number of recipients'),
 'C04': (C + '; provenance of every reply value', 'all outcomes'),
 'C05': (C + '; typestate of the transaction at every reply and hook call', 'all command sequences and decisions'),
 'C06': (C + '; case proofs of the data decoder for inputs that end anywhere', 'all inputs that end anywhere'),
 'C07': (C + '; a failed output as typestate', 'a write that fails at any point'),
 'C08': (C + '; an ended input as typestate', 'all inputs, packets and poll orders'),
 'C11': (AI + ' of send_reply over an output of lines that accepts, stalls or fails at any call, and of the greeting down to its bytes', 'all texts, codes and stalls'),
 'C26': (C + '; every assertion, index, slice and arithmetic check reached on any path', 'all inputs; command parsing excluded'),
})
G = 'grammar analysis: the parser definitions read from the source as regular languages with captures (finite automata over byte classes), '
CLAIMS.update({
 'C13': (G + 'equality with a reference; the parse entry point by abstract interpretation', 'every byte string'),
 'C14': (G + 'inclusion between the RFC grammar, the parser and the tolerated forms', 'every byte string'),
 'C15': (G + 'disjointness of the alternatives; abstract interpretation of the writers', 'every byte string, every command'),
 'C17': (G + 'inclusion of what the writers write (' + AI + ') in what the parsers read', 'every command with arguments of parsed form'),
 'C16': (G + 'inclusion of every argument language', 'every byte string that parses'),
 'C20': (AI + ' of Email::localpart with a ghost reader of the quoting in lockstep; the forms a local part can have from the grammar as regular languages', 'every local part the parsers let through'),
 'C18': (AI + ' of every parse entry point over an arbitrary answer of the grammar', 'every input, every entry point'),
})
CLAIMS.update({
 'C29': (AI + ' of send_queued_mail with the future combinators it is built of; typestate of the mail', 'every outcome of every storage and transport operation, at any poll'),
 'C30': (AI + ' of run with the future and stream combinators it is built of; ghost lists of mails, deadlines as lower bounds', 'every content of the storage, every poll order of the tasks'),
})
CLAIMS.update({
 'C32': (C + '; typestate of the announcement, provenance of the metadata', 'all command sequences and decisions'),
 'C33': (AI + ' of a most general client over an output that accepts, stalls or fails at any call; typestate of the output', 'all contents in all pieces, every failure'),
 'C34': (AI + ' of every constructor and accessor on arbitrary arguments', 'all texts and parts'),
 'C35': (AI + ' of every default method of the application interface', 'all host names and banners'),
 'C36': (AI + ' of most general clients of the streams and futures; typestate of the task (asleep only if something wakes it)', 'all inputs, packets and orders of readiness'),
 'C37': (AI + ' of send_queued_mail and run with the future combinators they are built of; typestate of the mail and of what failed', 'every outcome of every storage and transport operation, at any poll'),
})
NA = {
 'N01': 'the line buffer grows with the bytes of an unterminated line by design; a bound on process memory is a runtime quantity with no limit in the source to check',
 'N02': 'depends on the executor and on streams, sinks and futures supplied by the application, none of which is in the source analysed (what the library itself must do for it is C36)',
 'N03': 'storage is an interface; the repository contains no implementation whose durability could be judged',
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            tech, note = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd='python3 /verif/check.py ' + i, thorough_cmd='python3 /verif/check.py %s --thorough' % i,
                               technique='static analysis: ' + tech, level='proof', level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
    m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__':
    main()
