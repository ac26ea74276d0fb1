// Package simio injects faults at the system-call seam of chosen files: the
// real kernel serves the content, the plan decides which call is cut short,
// interrupted, refused or given a wrong size.
package simio

// Fault is one planned fault.
type Fault struct {
	Call string `json:"call"` // open read fstat write
	Nth  int    `json:"nth"`  // which call on the path (0-based); -1: every one
	Kind string `json:"kind"` // short eintr eio enoent emfile eacces lie
	N    int    `json:"n,omitempty"`
	Path int    `json:"path"` // index of the path; -1: standard output
}

// Plan is a set of faults over a set of files.
type Plan struct {
	Paths  []string `json:"paths"`
	Dir    string   `json:"dir,omitempty"` // what relative names start from
	Faults []Fault  `json:"faults"`
}
