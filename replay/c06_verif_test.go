package readline

import "testing"

func TestReplayC06(t *testing.T) { lineSearch(t, "C06") }
