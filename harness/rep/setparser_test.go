//go:build setparser

package rep

import "github.com/Breeze0806/gobinlog/replication"

// VerifParseGTIDSet comes from an overlay file (shim/), because the set parsers
// of the flavors are not exported.
func init() { parseSet = replication.VerifParseGTIDSet }
