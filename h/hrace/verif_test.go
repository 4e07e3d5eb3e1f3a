package hrace

import (
	"testing"

	"github.com/yields/ant/zverif/mc"
)

func TestVerif(t *testing.T) { mc.Main(t, Scenarios()) }
