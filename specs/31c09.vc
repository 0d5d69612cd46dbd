// C09: guarded state is touched only under its lock, locks are released on every way out,
// and every other write goes to memory this call allocated (or the caller's own).
prop C09 kinds=lock,frame,pub funcs=*
