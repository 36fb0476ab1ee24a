"""Build what the checks share, so that each check starts warm."""
import base
for crate in ("core", "auto", "bench"):
    base.cargo(crate)
import tools
tools.build()
