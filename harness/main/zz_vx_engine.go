package main

import _ "github.com/cespedes/accounting/zzvx/h"
