package readline

import "testing"

func TestReplayC20(t *testing.T) { vKeys(t, "C20") }
