from IPython import display
