def A(*hs, **kw):
    return [dict(variant='asan', h=h, **kw) for h in hs]
def S(*hs, **kw):
    return [dict(variant='sched', h=h, **kw) for h in hs]
CHECKS = {
 'C01': dict(parts=A('bitset')),
 'C02': dict(parts=A('bytebuffer')),
 'C03': dict(parts=A('wire')),
 'C04': dict(parts=A('types')),
 'C06': dict(parts=A('values')),
 'C07': dict(parts=A('partial')),
 'C08': dict(parts=A('malformed')),
 'C12': dict(parts=A('equality')),
 'C13': dict(parts=A('copies')),
 'C14': dict(parts=A('lookup')),
 'C15': dict(parts=A('unions')),
 'C16': dict(parts=A('arrays')),
 'C09': dict(parts=A('sharedvec')+S('sharedmt')),
 'C10': dict(parts=A('convert')),
 'C11': dict(parts=A('anyscalar')),
 'C17': dict(parts=A('subarray')),
 'C18': dict(parts=A('builders')),
 'C19': dict(parts=A('request')),
 'C20': dict(parts=A('mapper')),
 'C21': dict(parts=A('compress')),
 'C22': dict(parts=A('json')),
 'C23': dict(parts=A('printing')),
 'C28': dict(parts=A('timestamp')),
 'C29': dict(parts=A('property')),
 'C30': dict(parts=A('immutable')),
 'C34': dict(parts=S('separate','primitives')),
 'C33': dict(parts=A('creation')),
 'C32': dict(parts=A('convtext')),
 'C31': dict(parts=A('standard')),
 'C27': dict(parts=A('debugptr')+S('debugptrmt')),
 'C24': dict(parts=S('timer','primitives')+A('primitives')),
 'C25': dict(parts=S('threads','primitives')+A('primitives')),
 'C26': dict(parts=A('refcount','primitives')+S('refmon','primitives')),
 'C05': dict(parts=A('interning')+S('internmt','primitives')),
}
