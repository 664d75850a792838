package astra

import (
	vc "github.com/ls6-events/astra/zzvc"
)

func zzRetKey(a, b ReturnType) bool {
	return a.Field.Type == b.Field.Type && a.Field.Package == b.Field.Package && a.StatusCode == b.StatusCode && a.ContentType == b.ContentType
}

func zzCompKey(a, b Field) bool {
	return a.Name == b.Name && a.Package == b.Package
}

//vc:contract AddReturnType
//vc:prop C03
func zzAddReturnType(prev []ReturnType, n []ReturnType) {
	vc.ModifiesSpare(prev)
	p0 := vc.Snap(prev)
	n0 := vc.Snap(n)
	vc.Requires(vc.Ref(prev) != vc.Ref(n))
	vc.Invariant(func(v_l []ReturnType) bool {
		return len(v_l) >= len(p0) && vc.Forall(0, len(p0), func(i int) bool { return vc.Same(v_l[i], p0[i]) })
	})
	vc.Invariant(func(v_l []ReturnType, v_k int) bool {
		return vc.Forall(0, v_k, func(j int) bool {
			return vc.Exists(0, len(v_l), func(i int) bool { return zzRetKey(v_l[i], n0[j]) })
		})
	})
	vc.Invariant(func(v_l []ReturnType) bool {
		return vc.Forall(len(p0), len(v_l), func(i int) bool {
			return vc.Exists(0, len(n0), func(j int) bool { return vc.Same(v_l[i], n0[j]) })
		})
	})
	vc.Invariant(func(v_l []ReturnType) bool {
		return vc.Forall(len(p0), len(v_l), func(i int) bool {
			return vc.Forall(0, i, func(j int) bool { return !zzRetKey(v_l[i], v_l[j]) })
		})
	})
	vc.Invariant(func(f_l []ReturnType, f_r ReturnType, v_k int) bool {
		return vc.Forall(0, v_k, func(i int) bool { return !zzRetKey(f_l[i], f_r) })
	})
	r := AddReturnType(prev, n...)
	vc.Ensures("keeps", len(r) >= len(p0) && vc.Forall(0, len(p0), func(i int) bool { return vc.Same(r[i], p0[i]) }))
	vc.Ensures("covers", vc.Forall(0, len(n0), func(j int) bool {
		return vc.Exists(0, len(r), func(i int) bool { return zzRetKey(r[i], n0[j]) })
	}))
	vc.Ensures("from", vc.Forall(len(p0), len(r), func(i int) bool {
		return vc.Exists(0, len(n0), func(j int) bool { return vc.Same(r[i], n0[j]) })
	}))
	vc.Ensures("no-duplicate", vc.Forall(len(p0), len(r), func(i int) bool {
		return vc.Forall(0, i, func(j int) bool { return !zzRetKey(r[i], r[j]) })
	}))
	vc.Ensures("fresh", vc.Fresh(r) || vc.SameSlice(r, prev) || vc.Ref(r) == vc.Ref(prev))
}

//vc:contract AddComponent
//vc:prop C03
func zzAddComponent(prev []Field, n []Field) {
	vc.ModifiesSpare(prev)
	p0 := vc.Snap(prev)
	n0 := vc.Snap(n)
	vc.Requires(vc.Ref(prev) != vc.Ref(n))
	vc.Invariant(func(v_l []Field) bool {
		return len(v_l) >= len(p0) && vc.Forall(0, len(p0), func(i int) bool { return vc.Same(v_l[i], p0[i]) })
	})
	vc.Invariant(func(v_l []Field, v_k int) bool {
		return vc.Forall(0, v_k, func(j int) bool {
			return vc.Exists(0, len(v_l), func(i int) bool { return zzCompKey(v_l[i], n0[j]) })
		})
	})
	vc.Invariant(func(v_l []Field) bool {
		return vc.Forall(len(p0), len(v_l), func(i int) bool {
			return vc.Exists(0, len(n0), func(j int) bool { return vc.Same(v_l[i], n0[j]) })
		})
	})
	vc.Invariant(func(v_l []Field) bool {
		return vc.Forall(len(p0), len(v_l), func(i int) bool {
			return vc.Forall(0, i, func(j int) bool { return !zzCompKey(v_l[i], v_l[j]) })
		})
	})
	vc.Invariant(func(f_l []Field, f_r Field, v_k int) bool {
		return vc.Forall(0, v_k, func(i int) bool { return !zzCompKey(f_l[i], f_r) })
	})
	r := AddComponent(prev, n...)
	vc.Ensures("keeps", len(r) >= len(p0) && vc.Forall(0, len(p0), func(i int) bool { return vc.Same(r[i], p0[i]) }))
	vc.Ensures("covers", vc.Forall(0, len(n0), func(j int) bool {
		return vc.Exists(0, len(r), func(i int) bool { return zzCompKey(r[i], n0[j]) })
	}))
	vc.Ensures("from", vc.Forall(len(p0), len(r), func(i int) bool {
		return vc.Exists(0, len(n0), func(j int) bool { return vc.Same(r[i], n0[j]) })
	}))
	vc.Ensures("no-duplicate", vc.Forall(len(p0), len(r), func(i int) bool {
		return vc.Forall(0, i, func(j int) bool { return !zzCompKey(r[i], r[j]) })
	}))
	vc.Ensures("fresh", vc.Fresh(r) || vc.SameSlice(r, prev) || vc.Ref(r) == vc.Ref(prev))
}
