commit='dd610a7d146b7e8e180f25badd53a93f3f8e6c44'
date='2026-11-12 05:04:57 +0000'
modified=False
