package readline

import "testing"

func TestReplayC21(t *testing.T) { vKeys(t, "C21") }
