package main

import "fmt"

func dumpState(st *State) {
	for t, v := range st.facts {
		fmt.Println("   F", t, v)
	}
	for t := range st.must {
		fmt.Println("   T", t)
	}
	for t := range st.may {
		if !st.must[t] {
			fmt.Println("   t?", t)
		}
	}
	for a, v := range st.heap {
		fmt.Println("   H", a, "=", v)
	}
	for a, v := range st.cont {
		fmt.Println("   C", a, "=", v.elems, v.base, v.closed)
	}
}
