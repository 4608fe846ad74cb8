package main

import (
	"fmt"
	"strings"
)

// Lock tracking: flags "lk:<term id>" = "W" or "R" while a mutex is held.

func lockOp(name string) (op string, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "W", true
	case "(*sync.RWMutex).RLock":
		return "R", true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock", "(*sync.RWMutex).RUnlock":
		return "", true
	}
	return "", false
}

// trackLocks makes the hooks maintain the lock flags.
func trackLocks(h *Hooks) *Hooks {
	user := h.Call
	h.Call = func(st *State, ev *CallEv) {
		if op, ok := lockOp(ev.Name); ok && len(ev.Args) > 0 {
			k := fmt.Sprintf("lk:%d", strip(ev.Args[0]).ID)
			if op == "" {
				st.Del(k)
			} else {
				st.Set(k, op)
			}
		}
		if user != nil {
			user(st, ev)
		}
	}
	return h
}

// anyLock reports whether some tracked mutex is held ("W": exclusively).
func anyLock(st *State, write bool) bool {
	for k, v := range st.flags {
		if strings.HasPrefix(k, "lk:") && (!write || v == "W") {
			return true
		}
	}
	return false
}

// lockedObj reports whether a mutex that is a field of obj is held.
func lockedObj(e *Engine, st *State, obj *Term, write bool) bool {
	for k, v := range st.flags {
		if !strings.HasPrefix(k, "lk:") || write && v != "W" {
			continue
		}
		id := k[3:]
		t := e.T.byID(id)
		if t == nil {
			continue
		}
		for x := t; x != nil && x.Op == OFieldAddr; x = x.Args[0] {
			if strip(x.Args[0]) == strip(obj) {
				return true
			}
		}
	}
	return false
}
