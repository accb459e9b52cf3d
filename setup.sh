#!/bin/bash
exec /verif/build.sh
