#!/bin/bash
# mkir.sh REPO OUT : compile the C sources of REPO to LLVM IR with the flags of the receiver build
