m={
'ae35ff8':('C16','throttler operations escaped the lock as a live dict view: refresh raised when another thread saw a new operation'),
'7dbe833':('C17','sampling.priority None/inf/list raised TypeError/OverflowError out of set_tag'),
'fa62f68':('C04','annotation after finish() while the batch was written corrupted the datagram'),
'76429b0':('C04','partially encoded batch stayed in the channel buffer and was sent in front of the next batch (also C01: counted ok but undecodable)'),
'bcbcffa':('C04','integer outside 64 bits, lone surrogate or non-string operation name lost the whole batch'),
'c5d5527':('C09','ids wider than 64/128 bits, flags wider than 8 bits and negative B3 ids accepted; non-string trace header raised TypeError'),
'd4cacfe':('C09','non-string baggage, baggage-header or debug-id values raised TypeError/AttributeError'),
'6e29733':('C09','truncated or garbled binary carriers raised struct.error/UnicodeDecodeError; negative length accepted'),
'c1ab746':('C07','second Reporter.close() never completed'),
'6c7bfb0':('C07','close() from a thread without an event loop raised RuntimeError; composite of no reporters never completed (C23)'),
'365a33d':('C07','throttler went on polling after Tracer.close()'),
'ac8a61c':('C12','trace started from a baggage-only context was never sampled, the sampler was not consulted'),
'a932ec4':('C10','active span overrode explicit references as the parent'),
'21082fa':('C11','concurrent set_baggage_item lost updates and undid sampling.priority'),
'eedc666':('C08','B3 debug contexts were continued unsampled; 128-bit ids written with 17..31 digits'),
'fdc6feb':('C15','invalid per-operation response applied in part'),
'a4fa833':('C15','response body that is not UTF-8 raised out of the callback and was not counted (also C16)'),
'e64bdd1':('C20','validation rejected debug_id_header, max_operations and metrics'),
'62dd46f':('C20','JAEGER_TAGS value with an equals sign raised; supplied config was modified'),
'ca7798f':('C19','Prometheus series confused or duplicated by tag order; caller tags modified'),
'6167431':('C13','concurrent callers spent the same credit, balance went negative'),
'1daca4c':('C13','clock set back made the balance negative and starved callers'),
'adb6f58':('C16','malformed credit response applied in part; NaN balance disabled throttling'),
'0765e4e':('C04','reference to a context without span ids lost the whole batch'),
'5c59278':('C06','flush timeout restarted with every span, a trickle delayed spans batch_size-1 intervals'),
'8be13ef':('C07','one more poll was issued when closed during the random initial delay'),
'7ff03d0':('C15','request raising synchronously on the first poll stopped polling for ever and was not counted (also C16)'),
}
with open('/verif/KNOWN_FINDINGS','w') as f:
    f.write('# Genuine defects found. "known:" lines are reported as KNOWN-FINDING, "fixed:" lines suppress nothing.\n')
    for h,(p,t) in m.items(): f.write('fixed: property=%s %s %s\n'%(p,h,t))
