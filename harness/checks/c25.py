from .. import protocol


def replayers():
    return {'SourceProtocol': protocol.replay}


def run(ck):
    recs = ck.tlc('SourceProtocolGen', 'SourceProtocol_' + ck.tier)
    ck.replay('SourceProtocol', recs, protocol.replay, minimum=3000)
