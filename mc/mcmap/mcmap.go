// Package mcmap holds the scheduled sync.Map (compiled apart because it uses generic code of the standard library).
package mcmap

import (
	"sync"

	"vmc/mc"
)

// Map is a scheduled sync.Map.
type Map struct{ m sync.Map }

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) { mc.Point("Map.Load"); return m.m.Load(k) }

// Store stores.
func (m *Map) Store(k, v interface{}) { mc.Point("Map.Store"); m.m.Store(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	mc.Point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	mc.Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { mc.Point("Map.Delete"); m.m.Delete(k) }

// Swap swaps.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { mc.Point("Map.Swap"); return m.m.Swap(k, v) }

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	mc.Point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}

// Range iterates.
func (m *Map) Range(f func(k, v interface{}) bool) { mc.Point("Map.Range"); m.m.Range(f) }
