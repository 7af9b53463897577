#!/bin/bash
# packs the stand-in substrate for the demonstrations
cd /verif/sim && cp ../tools/demo/demo.toml sims/demo.toml && tar cJf /tmp/kit.txz --exclude='*/target' Cargo.toml Cargo.lock .cargo shim vendor wrap sims/rt sims/nodekit sims/simkit sims/demo.toml; rm /verif/sim/sims/demo.toml
