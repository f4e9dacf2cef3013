package common

import (
	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// ModelSliceStable sorts as sort.SliceStable does.
//
//verif:model sort.SliceStable
func ModelSliceStable(x interface{}, less func(i, j int) bool) {
	n := rt.Len(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			rt.Swap(x, j, j-1)
		}
	}
}

// ModelSlice sorts as sort.Slice does (up to the order of equals among more than 12 elements).
//
//verif:model sort.Slice
func ModelSlice(x interface{}, less func(i, j int) bool) {
	n := rt.Len(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			rt.Swap(x, j, j-1)
		}
	}
}
