package readline

import "testing"

func TestReplayC02(t *testing.T) { lineSearch(t, "C02") }
