//go:build !sysio

package simio

// State is unavailable without the system-call seam.
type State struct {
	Opens, Closes int
	Fired         map[string]int
	Hit           map[int]int
	Notify        func(string)
}

// Open is unavailable.
func (s *State) Open() int { return 0 }

// Install is unavailable.
func Install(p Plan) *State { panic("simio: built without the system-call seam") }

// Remove does nothing.
func Remove() {}
