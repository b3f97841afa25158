// C22: closing resources and merging errors.
stable io.Closer plz
stable error plz
rec fn nonnil(s seq, i int) seq = ite(i <= 0, empty, ite(s[i-1] != nil, cat(nonnil(s, i-1), unit(s[i-1])), nonnil(s, i-1)))
contract plz.MergeErrors(errs) r
prop C22
ensures none: implies(len(nonnil(errs, len(errs))) == 0, r == nil)
ensures some: implies(len(nonnil(errs, len(errs))) > 0, typeof(r) == typeid("plz.MultiError") && payload("plz.MultiError", r) == nonnil(old(errs), len(errs)))
inv (e=nonNilErrs slice, i int): 0 <= i && i <= len(errs) && e == nonnil(errs, i)
inv (e=nonNilErrs slice): base(e) != base(errs)
inv (e=nonNilErrs slice, i int): implies(forall(k, 0, len(errs), errs[k] != nil), e == errs[:i])
ensures allerrs: implies(forall(k, 0, len(errs), errs[k] != nil) && len(errs) > 0, typeof(r) == typeid("plz.MultiError") && payload("plz.MultiError", r) == old(errs))
ensures noerrs: implies(len(errs) == 0, r == nil)
end
contract plz.Close(resource, properties) r
prop C22
requires resource != nil && installed()
modifies everything, ghost closes, ghost closed, ghost closedlist, ghost closeerrs, ghost printed, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
ensures once: closedlist == cat(old(closedlist), unit(resource))
ensures error: closeerrs == ite(r == nil, old(closeerrs), cat(old(closeerrs), unit(r)))
ensures logged: iff(r == nil, hcalls == old(hcalls))
ensures reported: implies(r != nil, hlevel == 50 && len(hprops) == len(properties) + 2 && hprops[len(properties) + 1] == r)
end
contract plz.CloseAll(resources, properties) r
prop C22
requires installed() && forall(k, 0, len(resources), resources[k] != nil)
modifies everything, ghost closes, ghost closed, ghost closedlist, ghost closeerrs, ghost printed, ghost hcalls, ghost hpan, ghost honpanic, ghost hreports, ghost hlevel, ghost herr, ghost hctx, ghost hpb, ghost hpo, ghost hpl, ghost hprops
let R: resources
let E: closeerrs
ensures all: closedlist == cat(old(closedlist), R)
ensures none: implies(closeerrs == E, r == nil)
ensures some: implies(len(closeerrs) > len(E), typeof(r) == typeid("plz.MultiError") && cat(E, payload("plz.MultiError", r)) == closeerrs)
ensures logged: implies(len(closeerrs) > len(E), hcalls > old(hcalls))
inv inst: installed() && resources == R
inv (i int): 0 <= i && i <= len(resources) && closedlist == cat(old(closedlist), R[:i])
inv (e=errs slice): closeerrs == cat(E, e) && forall(k, 0, len(e), e[k] != nil)
inv (e=errs slice): hcalls >= old(hcalls) + len(e)
inv (e=errs slice): implies(len(e) > 0, hlevel == 50 && len(hprops) == len(properties) + 2 && hprops[len(properties) + 1] == e[len(e)-1])
ensures reported: implies(len(closeerrs) > len(E), hlevel == 50 && len(hprops) == len(properties) + 2 && hprops[len(properties) + 1] == closeerrs[len(closeerrs)-1] && hcalls >= old(hcalls) + len(closeerrs) - len(E))
end
