#!/usr/bin/env python3
"""Writes known_findings.jsonl. Fixed entries suppress nothing."""
import json
F = [
 ("C04","ba7e7ce","after one endpoint of a broker failed the next was tried on the socket of the failed attempt: another address family could not be connected and a TLS or reset socket stayed unusable, so a client with a working broker was dropped"),
 ("C11","bbc3098","a session whose client had left while its broker was being connected went on connecting to further brokers, and the broker connection stayed"),
 ("C05","7b07db6","the round-robin marker moved more than once per connection, so an even number of brokers was loaded unevenly"),
 ("C05","5d2d3be","sessions waiting for the authentication service at the same time were all given the same broker"),
 ("C06","a3f54a2","an error status of the authentication service with a body that decodes (or an empty one) was taken as allow"),
 ("C08","a16ab5b","a read deferred by the data rate limit was lost when the quota timer was rearmed, leaving the connection stuck"),
 ("C09","90c297c","pausing and unpausing on the control thread raced the session on the data thread: sessions stayed stuck, or a freed session was used"),
 ("C10","f6d7548","the Close of a graceful disconnect was written into the middle of a frame being forwarded"),
 ("C10","0991dd9","after a backend disconnect the session was dropped from the listing while its client stayed connected, so nothing could end it"),
 ("C02","e15cce8","a Close with which the broker answered connection.open was ignored; the client was left waiting"),
 ("C12","aa39228","nested field tables or arrays overflowed the stack; field values cut short were read past the end of the frame"),
 ("C15","e3e7e53","a LISTEN START on a port that cannot be listened on (in use, privileged, no descriptors) threw out of the data thread and ended the process"),
 ("C15","a522eac","an accept cancelled by LISTEN STOP was restarted on a newer listener of the same port, so a plain accept could be armed on a secure port"),
 ("C15","74b684c","LISTEN STOP did not stop a listener whose start was still queued for the data thread"),
 ("C15","71a243d","a client connection aborted before it was accepted delayed those queued behind it until another one came"),
 ("C17","71fc0a9","the PROXY header sent to a backend given by name named the wrong destination address"),
 ("C17","13efa15","a changed TLS verify mode did not apply to the next client, whose TLS object had been made before: a client without certificate was let in"),
 ("C14","471302e","BACKEND DELETE freed the backend while farms and connecting sessions still used it: use after free, crash"),
 ("C14","b48b591","a farm kept naming a deleted backend (or the old address of one added again), and partitioning a farm with a deleted member dereferenced null"),
 ("C14","e999321","FARM ADD (replace) or FARM DELETE freed the farm while a connection was choosing from it"),
 ("C10","dbbd212","a backend disconnect over TLS that met a write being finished waited for the backend for ever: the backend stayed connected and the client's end went unnoticed"),
 ("C10","ae1d931","a session whose backend was disconnected during a graceful disconnect stayed for ever once its client had answered the Close"),
 ("C03","28a0a4d","a client of an unmapped (or limited) vhost with a name of more than 220 bytes was dropped without a Close, whose text could not be encoded"),
 ("C10","e46f8b9","a client closing by itself at the moment of its graceful disconnect, its Close and CloseOk read together: the broker was not told with a Close"),
 ("C15","876f00b","a client accepted just before LISTEN STOP and START_SECURE left a plain accept armed on the secure port: the next client was served without TLS"),
 ("C18","ec7922e","connecting to a broker given by its numeric address waited behind every name being looked up, because it was queued to the same resolver thread"),
 ("C18","336dd51","STAT SEND to a host that cannot be resolved threw out of the control thread, so no command was answered any more"),
 ("C13","b3b82d2","a statsd datagram that could not be sent at once was sent from freed memory"),
 ("C13","35024ff","reports (and command outputs) written to a reader that is behind were interleaved, corrupting both"),
 ("C13","8434d9a","a session that ended between being collected and being removed was never reported as ended, and its last traffic was lost"),
 ("C13","753a20a","traffic was counted again, or less than nothing, when sessions were counted under another name or ended; an end could be counted twice"),
 ("C14","dce0818","MAPHOSTNAME freed the previous hostname mapper while sessions were using it; AUTH likewise raced the accept handler"),
]
K = [
 ("dns-names", "C18", r"of a quickly resolved broker name .* while other names were being looked up", "libamqpprox/amqpprox_dnsresolver.h",
  "a client whose broker's name resolves quickly waits while lookups of other names hang: all names are looked up one after another by the io_context's one resolver thread"),
 ("backend-add-lookup", "C18", r"while BACKEND ADD waited for a name lookup", "libamqpprox/amqpprox_backendcontrolcommand.cpp",
  "BACKEND ADD looks the host name up synchronously on the control thread: no other command is answered until it is resolved"),
 ("maphostname-lookup", "C18", r"while MAPHOSTNAME waited for the reverse lookup", "libamqpprox/amqpprox_dnshostnamemapper.cpp",
  "with MAPHOSTNAME DNS the reverse lookup of one connection's address is made synchronously under the mapper's lock: the control and data threads wait for it"),
]
with open("/verif/known_findings.jsonl", "w") as f:
    f.write('# One JSON object per line. status "known": recorded, not repaired; violations whose text matches are reported as KNOWN-FINDING.\n'
            '# status "fixed": repaired in /repo by the named commit; suppresses nothing.\n')
    for p, c, t in F:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": t, "text": "fixed: property=%s %s %s" % (p, c, t)}) + "\n")
    for i, p, m, site, t in K:
        f.write(json.dumps({"status": "known", "id": i, "property": p, "match": m, "site": site, "what": t}) + "\n")
