package readline

import "testing"

func TestReplayC04(t *testing.T) { lineSearch(t, "C04") }
