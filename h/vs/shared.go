package vs

import (
	"fmt"
	"unsafe"
)

// Hot is how many statements after the use of a variable of a package are steps.
var Hot = 300

// Shared is a step: the statement that follows uses a variable of a package.
func Shared() {
	x := self()
	if x == nil {
		return
	}
	x.hot = Hot
	YieldAt("package variable")
}

// Step is a step for a while after Shared.
func Step() {
	if S == nil {
		return
	}
	x := self()
	if x == nil || x.hot <= 0 {
		return
	}
	x.hot--
	YieldAt("statement")
}

// Races are pairs of uses of the same thing, one of them a write, that two
// goroutines were about to make at the same time.
func (s *Sched) Races() []string { return s.races }

// Known are the maps that more than one goroutine uses. They are learnt in one
// execution and are steps in the next ones.
var Known = map[uintptr]any{}

func touch(at uintptr, write bool, what string, keep any) {
	x := self()
	if x == nil || at == 0 {
		return
	}
	if keep != nil {
		if s, ok := S.users[at]; !ok {
			if S.users == nil {
				S.users = map[uintptr]user{}
			}
			S.users[at] = user{x.id, keep}
		} else if s.id != x.id {
			Known[at] = s.m
		}
		if Known[at] == nil {
			return
		}
	}
	for _, y := range S.gs {
		if y != x && y.at == at && (write || y.write) && y.state != gDone {
			S.races = append(S.races, fmt.Sprintf("%s and %s use the same %s without synchronisation", y.name, x.name, what))
		}
	}
	x.at, x.write = at, write
	YieldAt(what)
	x.at = 0
}

type user struct {
	id int
	m  any // kept, so that its address is not used again
}

func ReadsMap[M ~map[K]V, K comparable, V any](m M) {
	if S != nil {
		touch(mapID(m), false, fmt.Sprintf("%T", m), m)
	}
}

func WritesMap[M ~map[K]V, K comparable, V any](m M) {
	if S != nil {
		touch(mapID(m), true, fmt.Sprintf("%T", m), m)
	}
}

func mapID[M ~map[K]V, K comparable, V any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

func ReadsVar[T any](p *T) {
	if S != nil {
		touch(uintptr(unsafe.Pointer(p)), false, fmt.Sprintf("variable of type %T", *p), nil)
	}
}

func WritesVar[T any](p *T) {
	if S != nil {
		touch(uintptr(unsafe.Pointer(p)), true, fmt.Sprintf("variable of type %T", *p), nil)
	}
}
