import os
REPO = os.environ["DEMO_REPO"]
