from . import conn, loop, client, server, poll, seq, thr, codec, log
PROPS = {}
for m in (conn, loop, client, server, poll, seq, thr, codec, log):
    PROPS.update(m.PROPS)
