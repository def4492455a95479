// The harness of the model checker: every file registers scenarios.
package main

import "github.com/intel/forGoParallel/zz_verif/mct"

func main() { mct.Main() }
