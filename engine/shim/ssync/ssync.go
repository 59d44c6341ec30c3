// Package ssync stands in for sync in controlled native replays.
package ssync

import (
	rsync "sync"

	"vsa/internal/zzverif/rt"
)

type (
	Once      = rsync.Once
	WaitGroup = rsync.WaitGroup
	Pool      = rsync.Pool
	Cond      = rsync.Cond
	Locker    = rsync.Locker
	Map       = rsync.Map
)

func NewCond(l Locker) *Cond                        { return rsync.NewCond(l) }
func OnceFunc(f func()) func()                      { return rsync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T          { return rsync.OnceValue(f) }

type Mutex struct{ m rsync.Mutex }

func (x *Mutex) Lock()         { rt.Gate(); x.m.Lock(); rt.Done() }
func (x *Mutex) Unlock()       { rt.Gate(); x.m.Unlock(); rt.Done() }
func (x *Mutex) TryLock() bool { rt.Gate(); defer rt.Done(); return x.m.TryLock() }

type RWMutex struct{ m rsync.RWMutex }

func (x *RWMutex) Lock()          { rt.Gate(); x.m.Lock(); rt.Done() }
func (x *RWMutex) Unlock()        { rt.Gate(); x.m.Unlock(); rt.Done() }
func (x *RWMutex) RLock()         { rt.Gate(); x.m.RLock(); rt.Done() }
func (x *RWMutex) RUnlock()       { rt.Gate(); x.m.RUnlock(); rt.Done() }
func (x *RWMutex) TryLock() bool  { rt.Gate(); defer rt.Done(); return x.m.TryLock() }
func (x *RWMutex) TryRLock() bool { rt.Gate(); defer rt.Done(); return x.m.TryRLock() }
