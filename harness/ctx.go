package main

import "context"

type ctx0 = context.Context
